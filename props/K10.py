"""Kemper function buttons: commands sent and displays against a model, on a simulated device."""
from vlib import env, rig, kdev
from vlib.runner import Violation, check, eq

ID = "K10"
RULE = ("A case is 1-6 Kemper function actions (looper, tap and tempo, effect buttons, fixed effects, amp and cabinet, freeze, rotary speed, rig volume boost, morph button/display/rig select with morph, gain, "
        "tempo and transpose encoders, tempo label) with random options on a simulated device, under a history of short and long presses, device-side changes, rig changes, morph ramps, tempo pulses and "
        "page changes. Every message and every LED and label is predicted by a model. Signature = configuration and history; non-trivial when commands were sent.")
CASES = {"quick": 3000, "thorough": 40000}
FLOORS = {"commands": 2400, "display_checks": 18000, "rig_changes": 900, "pulses": 500, "morph_reports": 300, "morph_toggles": 250, "encoder_steps": 120, "bpm_previews": 10, "disabled_checks": 800,
          "effect_resets": 25, "reset_while_disabled": 15, "boost_restored": 20}
LEVEL_NOTE = ("Exploration: an independent table of commands and a model of states predict every message and every display of the real controller on a simulated device.")
PRE = b"\x00\x20\x33"
MODES = {"ENABLE": 0, "DISABLE": 10, "LATCH": 20, "MOMENTARY": 30, "MOMENTARY_INVERSE": 40, "HOLD_MOMENTARY": 50}
C = {"RED": (255, 0, 0), "WHITE": (255, 255, 255), "LIGHT_RED": (255, 100, 100), "YELLOW": (255, 255, 0), "LIGHT_GREEN": (100, 255, 100), "LIGHT_BLUE": (100, 100, 255), "ORANGE": (255, 125, 0),
     "BLUE": (0, 0, 255), "DARK_GREEN": (73, 110, 41), "PINK": (255, 125, 70)}
LOOP = {"REC_PLAY_OVERDUB": (88, "Rec", "RED"), "STOP": (89, "Stop", "WHITE"), "TRIGGER": (90, "Trigger", "LIGHT_BLUE"), "REVERSE": (91, "Reverse", "LIGHT_GREEN"),
        "HALF_SPEED": (92, "HalfSpd", "ORANGE"), "CANCEL": (93, "Undo", "YELLOW"), "ERASE": (94, "Erase", "LIGHT_RED")}
FIXED_FX = {0: (1, "Transpose", "WHITE"), 1: (6, "Gate", "LIGHT_BLUE"), 2: (11, "Comp", "BLUE"), 3: (16, "Boost", "RED"), 4: (21, "Wah", "ORANGE"), 5: (26, "Chorus", "BLUE"),
            6: (36, "Air", "BLUE"), 7: (41, "Doubler", "BLUE")}
PAGES = [0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d]
FREEZE = [0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x71, 0x72, 0x73]
KA = "pyswitch.clients.kemper.actions."
KM = "pyswitch.clients.kemper.mappings."


def dim(c, f):
    return tuple(int(x * f) for x in c)


def near(a, b, t=1):
    return all(abs(x - y) <= t for x, y in zip(a, b))


def nrpn(page, addr, v):
    return rig.sysex(PRE, bytes([2, 0x7f, 1, 0, page, addr, v >> 7, v & 127]))


def blend(base, morphed, v):
    return tuple(b + int((m - b) * (v / 16383)) for b, m in zip(base, morphed))


class Act:
    key = None          # parameter of the device
    on, off = 1, 0
    state = False       # None: not known to the model
    auto = False
    fake = False        # shows an internal state
    shown = True
    enabled = True
    text = None
    enc = None
    seen = None
    rig_off = None      # rig known when the action was disabled


class Enable:
    """The user's enable callback"""
    def __init__(self):
        self.on = True
        self.action = None

    def init(self, appl, listener=None):
        pass

    def enabled(self, action):
        return self.on


def run_case(rng, rec, tier):
    W = env.World()
    BIN = W.get("pyswitch.clients.local.actions.binary_switch:BINARY_SWITCH")
    ival = rng.choice([100, 200])
    cfg = {"updateInterval": ival}
    LB = {"on": 0.3, "off": 0.02}
    DD = {"on": 1, "off": 0.2}
    if rng.random() < 0.4:
        LB = {"on": rng.choice([0.5, 1]), "off": rng.choice([0, 0.1])}
        DD = {"on": rng.choice([0.9, 1]), "off": rng.choice([0.5, 0.1])}
        cfg.update(ledBrightnessOn=LB["on"], ledBrightnessOff=LB["off"], displayDimFactorOn=DD["on"], displayDimFactorOff=DD["off"])
    acts, inputs, labels = [], [], []
    led = 0
    morphers = []
    used = set()

    def lab(p=0.8):
        if rng.random() < p:
            l = rig.label(W, back=(1, 2, 3), y=len(labels))
            labels.append(l)
            return l
        return None

    def common(a, leds=None, color=None):
        a.label = lab()
        a.leds = rng.random() < 0.85
        kw = {"display": a.label, "use_leds": a.leds}
        if leds is not None and rng.random() < 0.3:
            a.leds = leds
            del kw["use_leds"]
        a.en = None
        if rng.random() < 0.4:
            a.en = Enable()
            kw["enable_callback"] = a.en
        return kw

    def custom(a, kw, text=True, color=True):
        if text and rng.random() < 0.3:
            a.text = kw["text"] = "TX"
        if color and rng.random() < 0.3:
            a.color = kw["color"] = (12, 200, 80)
        return kw

    kinds = ["loop", "tap", "tempo", "effbtn", "fixed", "fixed", "amp", "cab", "freeze", "freezeall", "rotary", "boost", "morph", "morph", "morphdisp", "rigmorph", "gain", "bpm", "transpose"]
    focus = rng.choice(kinds)
    for i in range(rng.randint(1, 6)):
        a = Act()
        a.kind = focus if i == 0 else rng.choice(kinds)
        if a.kind in used and a.kind in ("gain", "bpm", "transpose", "tempo", "boost", "amp", "cab", "freezeall", "rigmorph"):
            continue
        used.add(a.kind)
        a.mode = "MOMENTARY"
        act2 = None
        if a.kind in ("gain", "bpm", "transpose"):
            a.m = rig.EncModel(rng.randint(-5, 5))
            a.enc = a.kind
            a.label = lab(0.9)
            path, a.key, a.lo, a.hi, a.step = {"gain": ("amp:AMP_GAIN", (0x0a, 4), 0, 16383, 80), "bpm": ("tempo_bpm:ENCODER_BPM", (4, 0), 0, 16383, 80),
                                               "transpose": ("rig_transpose:ENCODER_RIG_TRANSPOSE", (4, 4), 28, 100, 1)}[a.kind]
            kw = {"preview_display": a.label}
            if a.kind != "transpose" and rng.random() < 0.5:
                a.step = kw["step_width"] = rng.choice([1, 10, 64, 200])
            a.timeout = 1500
            if rng.random() < 0.4:
                a.timeout = kw["preview_timeout_millis"] = rng.choice([500, 900])
            inputs.append({"assignment": {"model": a.m}, "actions": [W.get(KA + path)(**kw)]})
            acts.append(a)
            a.leds, a.en, a.pix = False, None, []
            continue
        if a.kind == "loop":
            n = rng.choice(list(LOOP))
            addr, a.text, c = LOOP[n]
            a.color, a.send = C[c], lambda v, addr=addr: nrpn(0x7d, addr, v)
            a.shown = False
            action = W.get(KA + "looper:LOOPER_" + n)(**custom(a, common(a, True)))
        elif a.kind == "tap":
            a.text, a.color, a.send, a.shown = "Tap", C["DARK_GREEN"], lambda v: rig.cc(30, v), False
            action = W.get(KA + "tempo:TAP_TEMPO")(**custom(a, common(a, False), text=False))
        elif a.kind == "effbtn":
            n = rng.choice([1, 2, 3, 4])
            a.text, a.color, a.mode = "FX " + "I" * n, C["LIGHT_GREEN"], "LATCH"
            a.send = lambda v, n=n: rig.cc(74 + n, v)
            kw = custom(a, common(a, True))
            a.shown = a.fake = True
            if rng.random() < 0.3:
                a.shown = kw["use_internal_state"] = False
            action = W.get(KA + "effect_button:EFFECT_BUTTON")(n, **kw)
        elif a.kind == "fixed":
            n = rng.randrange(8)
            addr, a.text, c = FIXED_FX[n]
            if (5, addr) in used:
                continue
            used.add((5, addr))
            a.color, a.key, a.send = C[c], (5, addr), lambda v, addr=addr: nrpn(5, addr, v)
            kw = custom(a, common(a, True))
            a.mode = "HOLD_MOMENTARY"
            if rng.random() < 0.6:
                a.mode = rng.choice(list(MODES))
                kw["mode"] = MODES[a.mode]
            action = W.get(KA + "fixed_fx:FIXED_EFFECT_STATE")(n, **kw)
        elif a.kind in ("amp", "cab", "freeze", "freezeall", "rotary"):
            a.mode = rng.choice(list(MODES))
            kw = common(a)
            a.text, a.color = "Bin", rng.choice([(250, 10, 30), (255, 255, 255)])
            if a.kind == "amp":
                mp, a.key = W.get(KM + "amp:MAPPING_AMP_STATE")(), (0x0a, 2)
            elif a.kind == "cab":
                mp, a.key = W.get(KM + "cabinet:MAPPING_CABINET_STATE")(), (0x0c, 2)
            elif a.kind == "freeze":
                n = rng.randrange(8)
                mp, a.key = W.get(KM + "freeze:MAPPING_FREEZE")(n), (0x7d, FREEZE[n])
            elif a.kind == "rotary":
                n = rng.randrange(8)
                mp, a.key = W.get(KM + "rotary:MAPPING_ROTARY_SPEED")(n), (PAGES[n], 0x1e)
            else:
                mp, a.fake = W.get(KM + "freeze:MAPPING_FREEZE_ALL_GLOBAL")(), True
            if a.key:
                if a.key in used:
                    continue
                used.add(a.key)
                a.send = lambda v, k=a.key: nrpn(k[0], k[1], v)
            else:
                a.send = lambda v: rig.cc(35, v)
            action = BIN(mp, text=a.text, color=a.color, mode=MODES[a.mode], **kw)
        elif a.kind == "boost":
            vol = rng.choice([0.5, 0.625, 0.75, 1.0, 0.9])
            a.text, a.color, a.key, a.on = "RigBoost", C["PINK"], (4, 1), int(16383 * vol)
            a.send = lambda v: nrpn(4, 1, v)
            kw = custom(a, common(a, True))
            a.auto, a.off = True, None
            if vol > 0.5 and rng.random() < 0.3:
                a.auto = kw["remember_off_value"] = False
                a.off = int(16383 * 0.5)
            a.mode = "HOLD_MOMENTARY"
            if rng.random() < 0.6:
                a.mode = rng.choice(list(MODES))
                kw["mode"] = MODES[a.mode]
            action = W.get(KA + "rig_volume_boost:RIG_VOLUME_BOOST")(vol, **kw)
        elif a.kind == "tempo":
            a.text, a.color, a.bright = "{bpm} bpm", C["LIGHT_GREEN"], 0.02
            kw = custom(a, common(a, True))
            if a.text == "TX":
                a.text = kw["text"] = "T={bpm}"
            if rng.random() < 0.4:
                a.bright = kw["led_brightness"] = rng.choice([0.5, 1])
            a.change = lab(0.5)
            a.timeout = 1500
            if a.change:
                kw["change_display"] = a.change
                if rng.random() < 0.5:
                    a.timeout = kw["change_timeout_millis"] = rng.choice([600, 1000])
            a.pulse = None
            action = W.get(KA + "tempo:SHOW_TEMPO")(**kw)
        elif a.kind in ("morph", "morphdisp"):
            a.text, a.base, a.morphed, a.fix = "Morph", C["RED"], C["BLUE"], None
            kw = custom(a, common(a, True), color=False)
            if rng.random() < 0.4:
                a.base = kw["morph_color_base"] = (10, 250, 100)
                a.morphed = kw["morph_color_morphed"] = (200, 20, 30)
            if a.kind == "morph":
                if rng.random() < 0.2:
                    a.fix = kw["color"] = (9, 99, 199)
                a.send = lambda v: rig.cc(80, v)
                action = W.get(KA + "morph:MORPH_BUTTON")(**kw)
            else:
                a.mode = "NONE"
                action = W.get(KA + "morph:MORPH_DISPLAY")(**kw)
            morphers.append(a)
        else:   # rigmorph
            a.rig = rng.randint(1, 5)
            a.text, a.base, a.morphed, a.fix = "Morph", C["RED"], C["BLUE"], None
            a.only = rng.random() < 0.7
            a.btn = rng.random() < 0.6
            a.mom = rng.random() < 0.4
            a.label, a.en, a.leds = lab(0.7), None, True
            kw = {}
            if rng.random() < 0.4:
                a.en = kw["enable_callback"] = Enable()
            if rng.random() < 0.4:
                a.base = kw["morph_color_base"] = (10, 250, 100)
                a.morphed = kw["morph_color_morphed"] = (200, 20, 30)
            action, act2 = W.get(KA + "rig_select_and_morph_state:RIG_SELECT_AND_MORPH_STATE")(
                rig=a.rig, display=rig.label(W), morph_display=a.label, morph_only_when_enabled=a.only, rig_btn_morph=a.btn, momentary_morph=a.mom, use_leds=False, **kw)
            a.send = lambda v, r=a.rig: rig.cc(49 + r, v)
            morphers.append(a)
        a.m = rig.SwModel()
        n = rng.choice([0, 1, 2, 3])
        a.pix = list(range(led, led + n)) if a.leds else []
        a.allpix = list(range(led, led + n))
        led += n
        inputs.append({"assignment": {"model": a.m, "pixels": tuple(a.allpix)} if n else {"model": a.m}, "actions": [action] + ([act2] if act2 else [])})
        acts.append(a)
    if not acts:
        return
    bpmlabel = None
    if rng.random() < 0.3:
        el, ui = W.imp("pyswitch.ui.elements"), W.imp("pyswitch.ui.ui")
        bpmlabel = el.DisplayLabel(bounds=ui.DisplayBounds(0, 200, 240, 40), layout={"font": "/fonts/A.pcf", "text": ""}, callback=W.get("pyswitch.clients.kemper.callbacks.tempo_bpm:KemperTempoDisplayCallback")())
        labels.append(bpmlabel)
    R = rig.Rig(W, inputs=inputs, labels=labels, config=cfg)
    dev = kdev.Device(W, rng.random(), R.inport, R.port, rig=rng.randrange(40))
    dev.lease_until = dev.next_sense = 10 ** 12
    sync = {"M": 0, "seen": None, "uncertain": 0, "known": True}     # morph model
    bpm = {"v": None, "rig": None}
    rigknown = [None]
    sent = []

    def collect():
        got = [m for t, m in R.sent() if not (m[0] == 0xF0 and m[6] in (0x41, 0x43))]
        sent.extend(got)
        return got

    def tick(dt=5):
        W.clock.advance(dt)
        dev.update()
        R.c.tick()

    def rigmorph_state():
        return {id(a): dev.rig % 5 == a.rig - 1 for a in morphers if a.kind == "rigmorph"}

    sel = [rigmorph_state()]

    def learn():
        """everything the device has is known to the controller by now"""
        s = rigmorph_state()
        if morphers:
            v = dev.num[(0, 0x0b)]
            if v != sync["seen"]:
                sync["seen"] = v
                sync["M"] = v
                both = all(s[id(a)] and sel[0][id(a)] for a in morphers if a.kind == "rigmorph" and a.only)
                sync["known"] = not sync["uncertain"] and both and any(a.en_now() for a in morphers)
                if sync["uncertain"] and all(s[id(a)] for a in morphers if a.kind == "rigmorph" and a.only):
                    sync["uncertain"] -= 1
        for a in morphers:
            if a.kind == "rigmorph" and a.only and s[id(a)] != sel[0][id(a)]:
                sync["uncertain"] = 2
        sel[0] = s
        for a in acts:
            if a.key and not a.enc:
                v = dev.num.get(a.key, 0)
                if v == a.seen or not a.en_now():
                    continue
                a.seen = v
                a.state = v >= a.on
                if a.auto and not a.state:
                    a.off = v

    def settle(ms=None):
        t = 0
        ms = ms or 2 * ival + 100
        while t < ms:
            tick(5)
            t += 5
        eq(collect(), [], "messages nobody asked for")
        learn()

    def tempo_change():
        """the controller got to know the tempo of the device: returns the previews which start"""
        out = []
        for a in acts:
            if a.kind == "tempo" and (a.label or a.change) and a.en_now():
                v = dev.num[(4, 0)]
                if v != a.bpm:
                    if a.bpm is not None and a.change and a.bpmrig == rigknown[0]:
                        out.append((a, a.text.replace("{bpm}", str(round(v / 64)))))
                    a.bpm, a.bpmrig = v, rigknown[0]
        return out

    def verify(why):
        leds = R.leds
        for k, a in enumerate(acts):
            if not a.en_now():
                rec.n("disabled_checks")
                if a.label and not a.enc:
                    eq((a.label.text, a.label.back_color), ("zz", (7, 8, 9)), "%s: label of disabled %s" % (why, a.kind))
                continue
            if a.enc:
                continue
            what = "%s: %s (%s)" % (why, a.kind, a.mode)
            rec.n("display_checks")
            if a.kind == "tempo":
                if a.pulse is not None:
                    for p in a.pix:
                        w = dim(a.color, a.bright if a.pulse > 0 else 0)
                        check(near(leds[p], w), lambda: "%s: pulse is %d: LED shows %r, expected %r" % (what, a.pulse, leds[p], w))
                if a.label:
                    eq(a.label.back_color, a.color, what + ": label colour")
                    eq(a.label.text, a.text.replace("{bpm}", str(round(dev.num[(4, 0)] / 64))), what + ": text")
                continue
            if a in morphers:
                if a.kind == "rigmorph" and a.only and not sel[0][id(a)]:
                    continue
                if not sync["known"] and not a.fix:
                    rec.n("morph_unsure")
                    continue
                c = a.fix or blend(a.base, a.morphed, sync["M"])
                pix = a.pix
                for p in pix:
                    w = dim(c, LB["on"])
                    check(near(leds[p], w), lambda: "%s: morph %d: LED shows %r, expected %r" % (what, sync["M"], leds[p], w))
                if a.label:
                    w = dim(c, DD["on"])
                    check(near(a.label.back_color, w), lambda: "%s: morph %d: label colour %r, expected %r" % (what, sync["M"], a.label.back_color, w))
                    eq(a.label.text, a.text, what + ": text")
                continue
            if a.label:
                eq(a.label.text, a.text, what + ": text")
            if a.state is None and a.shown:
                continue
            on = a.state and a.shown
            for p in a.pix:
                w = dim(a.color, LB["on" if on else "off"])
                check(near(leds[p], w), lambda: "%s is %s: LED shows %r, expected %r" % (what, "on" if on else "off", leds[p], w))
            if a.label:
                w = dim(a.color, DD["on" if on else "off"])
                check(near(a.label.back_color, w), lambda: "%s is %s: label colour %r, expected %r" % (what, "on" if on else "off", a.label.back_color, w))
        if bpmlabel:
            eq(bpmlabel.text, "%d bpm" % round(dev.num[(4, 0)] / 64), why + ": tempo label")

    for a in acts:
        a.en_now = (lambda a=a: a.en is None or a.en.on)
        a.bpm = a.bpmrig = None
    settle(800)
    tempo_change()
    dev.report_rig()
    rigknown[0] = dev.rig
    settle()
    sync["uncertain"] = 2 if any(a.kind == "rigmorph" for a in acts) else 0
    verify("after start")

    def command(a, state):
        a.state = state
        v = a.on if state else a.off
        if v is None:
            return []
        rec.n("commands")
        if a.auto and not state:
            rec.n("boost_restored")
        return [a.send(v)]

    hist = []

    def press(a, long):
        want = []
        st = a.state
        if a.kind in ("tempo", "morphdisp"):
            pass
        elif a.kind == "rigmorph":
            want = command(a, True)
            a.second = a.btn and rigknown[0] is not None and rigknown[0] % 5 == a.rig - 1
            if a.second:
                rec.n("morph_toggles")
                sync["M"] = 16383 if a.mom else (0 if sync["M"] > 0 else 16383)
                if a.mom:
                    sync["known"] = True
            else:
                sync["M"] = 0
                sync["known"] = True
        elif a.mode in ("LATCH", "HOLD_MOMENTARY"):
            if st is None:
                return None
            want = command(a, not st)
        elif a.mode in ("MOMENTARY", "ENABLE"):
            if st is None:
                return None
            want = command(a, True) if not st else []
            if a.kind == "morph":
                rec.n("morph_toggles")
                sync["M"] = 0 if sync["M"] > 0 else 16383
        else:
            if st is None:
                return None
            want = command(a, False) if st else []
        return want

    def release(a, long):
        st = a.state
        if a.kind == "rigmorph":
            if a.mom and a.second:
                sync["M"] = 0
            elif a.mom and dev.num[(0, 0x0b)]:
                sync["known"] = False       # the internal state ends with the release, the device's is different already
            return [a.send(0)]
        if a.kind in ("tempo", "morphdisp"):
            return []
        if a.mode == "MOMENTARY":
            return command(a, False) if st else []
        if a.mode == "MOMENTARY_INVERSE":
            return command(a, True) if not st else []
        if a.mode == "HOLD_MOMENTARY" and long:
            return command(a, not st)
        return []

    for step in range(rng.randint(4, 14)):
        k = rng.random()
        a = rng.choice(acts)
        on = [b for b in acts if b.kind == "effbtn" and b.en and b.en.on and b.state]
        if on and rng.random() < 0.5:
            a, k = rng.choice(on), 1
        if k < 0.45 and not a.enc:
            if not a.en_now():
                a.m.down = True
                settle(50)
                a.m.down = False
                settle()
                hist.append(("press disabled", a.kind))
            else:
                long = rng.random() < 0.3
                if a.key:
                    learn()
                a.m.down = True
                want = press(a, long)
                tick()
                got = collect()
                if want is None:
                    check(got in ([], [a.send(a.on)], [a.send(a.off)]), lambda: "pressing %s (%s) sent %r" % (a.kind, a.mode, [m.hex() for m in got]))
                    if got:
                        a.state = got[0] == a.send(a.on)
                    elif a.mode in ("ENABLE", "MOMENTARY"):
                        a.state = True
                    else:
                        a.state = False
                    want = got
                hist.append(("press", a.kind, a.mode, long, a.state))
                eq(got, want, "messages of pressing %s (%s), history %r" % (a.kind, a.mode, hist[-4:]))
                if a.kind == "rigmorph":
                    rigknown[0] = dev.rig
                    a.settle2 = True
                if long:
                    t = 0
                    while t < 800:
                        tick()
                        t += 5
                    eq(collect(), [], "messages while %s is held" % a.kind)
                    learn()
                    tempo_change()
                    if a.kind != "rigmorph":
                        verify("while %s is held" % a.kind)
                else:
                    settle(50)
                want = release(a, long)
                a.m.down = False
                tick()
                eq(collect(), want, "messages of releasing %s (%s), history %r" % (a.kind, a.mode, hist[-4:]))
                settle()
                if a.kind == "rigmorph":
                    rigknown[0] = dev.rig
                    for b in acts:
                        if b.kind == "effbtn":
                            effect_off(b, rec)
                tempo_change()
        elif k < 0.55:
            r = rng.choice([dev.rig, dev.rig, rng.randrange(40), rng.randrange(625)]) if rng.random() < 0.4 else rng.randrange(40)
            rec.n("rig_changes")
            quiet = rng.random() < 0.3
            if quiet:
                settle(1500 + 2 * ival)
                tempo_change()
            dev.load(r)
            hist.append(("rig", r))
            settle()
            changed = rigknown[0] != r
            rigknown[0] = r
            for b in acts:
                if b.kind == "effbtn":
                    effect_off(b, rec)
                if b.kind == "tempo" and b.change and b.en_now() and changed and quiet:
                    eq(b.change.text, "", "tempo preview after a rig change")
            tempo_change()
        elif k < 0.65:
            ks = [b.key for b in acts if b.key]
            if ks:
                b = rng.choice([b for b in acts if b.key])
                if b.enc == "transpose":
                    v = rng.randint(28, 100)
                elif b.enc:
                    v = rng.randrange(16384)
                elif b.kind == "boost":
                    v = rng.choice([0, b.on, max(b.on - 1, 0), min(b.on + 1, 16383), rng.randrange(16384)])
                else:
                    v = rng.choice([0, 1])
                dev.set(b.key, v)
                hist.append(("device", b.kind, v))
                settle()
                tempo_change()
        elif k < 0.72:
            settle()
            tempo_change()
            settle(2000)
            dev.set((4, 0), rng.randint(20, 250) * 64 + rng.randrange(64))
            hist.append(("tempo", dev.num[(4, 0)]))
            settle(2 * ival + 10)
            pv = tempo_change()
            for x, txt in pv:
                rec.n("bpm_previews")
                eq(x.change.text, txt, "tempo preview")
            if pv:
                settle(min(x.timeout for x, txt in pv) - 3 * ival if min(x.timeout for x, txt in pv) > 3 * ival else 5)
                for x, txt in pv:
                    if x.timeout > 3 * ival:
                        eq(x.change.text, txt, "tempo preview before its time is over")
                settle(1500 + 3 * ival)
                for x, txt in pv:
                    check(x.change.text != txt, lambda: "tempo preview %r still shown after its time" % txt)
        elif k < 0.80 and morphers:
            for v in rng.choice([[0], [16383], [100, 8000, 16383], [rng.randrange(16384)], [rng.randrange(16384), rng.randrange(16384)]]):
                dev.set((0, 0x0b), v)
                rec.n("morph_reports")
                settle()
            hist.append(("morph", dev.num[(0, 0x0b)]))
        elif k < 0.88:
            v = rng.choice([0, 1, 1, 2])
            dev.num[(0x7c, 0)] = v
            dev.report((0x7c, 0))
            rec.n("pulses")
            tick()
            tick()
            hist.append(("pulse", v))
            for b in acts:
                if b.kind == "tempo":
                    b.pulse = v
            settle(50)
        elif k < 0.93 and any(x.enc for x in acts):
            a = rng.choice([x for x in acts if x.enc])
            moves = rng.choice([1, -1, 2, -5, 30, -30])
            settle()
            cur = dev.num[a.key]
            v = min(max(cur + (int((a.m.p + moves) * a.step) - int(a.m.p * a.step)), a.lo), a.hi)
            a.m.p += moves
            tick()
            rec.n("encoder_steps")
            eq(collect(), [nrpn(a.key[0], a.key[1], v)] if v != cur else [], "messages of turning %s by %d from %d" % (a.enc, moves, cur))
            if v != cur and a.label:
                txt = {"gain": lambda: "Gain: %s" % round(v / 1638.3, 1), "bpm": lambda: "%d bpm" % round(v / 64),
                       "transpose": lambda: "Transpose: %s%d" % ("+" if v > 64 else "", v - 64)}[a.enc]()
                eq(a.label.text, txt, "preview text of %s at %d" % (a.enc, v))
                settle(a.timeout - 60)
                eq(a.label.text, txt, "preview text of %s at %d before its time is over" % (a.enc, v))
                settle(2 * ival + 100)
                check(a.label.text != txt, lambda: "preview text of %s still shown after its time" % a.enc)
            hist.append(("turn", a.enc, moves))
            settle()
            tempo_change()
        else:
            if a.en:
                a.en.on = not a.en.on
                hist.append(("enable" if a.en.on else "disable", a.kind))
                if a.en.on:
                    a.seen = None
                    if a in morphers:
                        sync["known"] = False   # values which came meanwhile are taken over now
                    if a.fake and not (a.kind == "effbtn" and a.rig_off is not None and a.rig_off != dev.rig):
                        a.state = None      # internal states are not kept by definition, but effects are reset by a rig change
                else:
                    a.rig_off = rigknown[0]
                    a.was = bool(a.state)
                settle()
                tempo_change()
                if not a.en.on and a.label:
                    a.label.text, a.label.back_color = "zz", (7, 8, 9)
                    settle()
                if not a.en.on and a.kind == "effbtn" and rng.random() < 0.8:
                    # the rig changes while the button is on another page
                    dev.load((dev.rig + rng.randint(1, 600)) % 625)
                    settle()
                    rigknown[0] = dev.rig
                    tempo_change()
                    for b in acts:
                        if b.kind == "effbtn":
                            effect_off(b, rec)
                    verify("rig change while an effect button is disabled")
                    rec.n("reset_while_disabled", int(a.was))
                    a.en.on = True
                    settle()
        verify("after %r" % (hist[-5:],))
        rec.ev(W.clock.ms, hist[-1] if hist else None)
    rec.sig(([(a.kind, a.mode, a.label is None, len(a.pix)) for a in acts], repr(hist)))


def effect_off(b, rec):
    if b.state:
        rec.n("effect_resets")
    b.state = False
