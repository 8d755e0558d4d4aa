"""Random but valid configurations using everything the firmware offers, random use of them, and what a user can see of it."""
import random
from . import env, rig

KA = "pyswitch.clients.kemper.actions."
LA = "pyswitch.clients.local.actions."
BOOM = ["PLAY_STOP_ALL", "SYNC_SERIAL", "MUTE_THRU", "PANIC", "ERASE", "ERASE_ALL", "STACK", "COPY", "FADE", "OCTAVE", "ONCE", "REVERSE"]
COL = [(255, 0, 0), (0, 255, 0), (10, 20, 30), (255, 255, 255), (0, 0, 0), (200, 120, 7)]


class Sink:
    def __init__(self, W, rng, nsw=6, nlabels=6, protocol=True, kinds=None, pages=True, hold=True, nenc=1, npot=1, tuner=True, cfg=None, internal=True, share=True):
        self.share = share                # several actions may use the same label
        self.free = None
        self.internal = internal          # allow actions with a state of their own (not a function of the device's)
        self.W, self.rng = W, rng
        r = rng
        self.kinds = kinds
        self.labels = [rig.label(W, back=r.choice([(50, 50, 50), (0, 0, 0)]), w=80, h=40, x=80 * (i % 3), y=40 * (i // 3)) for i in range(nlabels)]
        km = W.imp("pyswitch.clients.kemper")
        el = W.imp("pyswitch.ui.elements")
        ui = W.imp("pyswitch.ui.ui")
        self.named = []
        if r.random() < 0.7:
            self.named.append(el.DisplayLabel(bounds=ui.DisplayBounds(0, 120, 240, 80), layout={"font": "/fonts/A.pcf", "maxTextWidth": r.choice([220, 60]), "text": "-"},
                                              callback=km.KemperRigNameCallback(show_name=r.random() < 0.8, show_rig_id=r.random() < 0.5)))
        if r.random() < 0.4:
            am = W.imp("pyswitch.clients.kemper.mappings.amp")
            self.named.append(el.DisplayLabel(bounds=ui.DisplayBounds(0, 200, 240, 40), layout={"font": "/fonts/A.pcf", "text": ""},
                                              callback=W.get("pyswitch.controller.callbacks.parameter_display:ParameterDisplayCallback")(mapping=am.MAPPING_AMP_NAME(), default_text="?")))
        if r.random() < 0.3:
            self.named.append(el.DisplayLabel(bounds=ui.DisplayBounds(0, 200, 240, 40), layout={"font": "/fonts/A.pcf", "text": ""},
                                              callback=W.get("pyswitch.clients.kemper.callbacks.tempo_bpm:KemperTempoDisplayCallback")()))
        kids = self.labels + self.named
        if r.random() < 0.5:
            kids = kids + [el.BidirectionalProtocolState(ui.DisplayBounds(230, 230, 4, 4))]
        root = ui.DisplayElement(bounds=ui.DisplayBounds(0, 0, 240, 240), children=kids)
        if tuner and r.random() < 0.7:
            strobe = r.random() < 0.4
            kw = {"splash_default": root}
            if strobe:
                kw["strobe"] = True
            self.splash = km.TunerDisplayCallback(**kw)
        else:
            self.splash = W.get("pyswitch.clients.local.callbacks.splashes:SplashesCallback")(root)
        self.pager = None
        self.encbuttons = []
        self.desc = []
        self.switches, self.pots, self.encs = [], [], []
        inputs = []
        led = 0
        for i in range(nenc if r.random() < 0.7 else 0):
            m = rig.EncModel(r.choice([0, 5, -3]))
            self.encs.append(m)
            inputs.append({"assignment": {"model": m}, "actions": [self.encoder() for _ in range(r.choice([1, 1, 2]))]})
        for i in range(npot if r.random() < 0.7 else 0):
            m = rig.PotModel(r.randrange(65536))
            self.pots.append(m)
            inputs.append({"assignment": {"model": m}, "actions": [self.analog() for _ in range(r.choice([1, 1, 2]))]})
        if pages and r.random() < 0.5 and (kinds is None or "pager" in kinds):
            P = W.get(LA + "pager:PagerAction")
            self.pager = P(pages=[{"id": k, "color": r.choice(COL), "text": "Pg%d" % k} for k in (1, 2)], display=self.label(), use_leds=r.random() < 0.7)
        for i in range(nsw):
            m = rig.SwModel()
            self.switches.append(m)
            n = r.choice([0, 1, 3, 3, 5])
            inp = {"assignment": {"model": m, "pixels": tuple(range(led, led + n))} if n else {"model": m},
                   "actions": [self.action() for _ in range(r.choice([0, 1, 1, 2, 3]))]}
            led += n
            if i == 0 and self.pager:
                inp["actions"].append(self.pager)
            if i == 1 and self.encbuttons:
                inp["actions"] += self.encbuttons
            if hold and r.random() < 0.4:
                inp["actionsHold"] = [self.action() for _ in range(r.choice([1, 2]))]
                inp["holdTimeMillis"] = r.choice([300, 600])
                if r.random() < 0.3:
                    inp["holdRepeat"] = True
            inputs.append(inp)
        self.protocol = km.KemperBidirectionalProtocol(30, tuner_mode=r.random() < 0.7) if protocol else None
        self.cfg = dict(cfg or {})
        self.R = rig.Rig(W, inputs=inputs, splash=self.splash, config=self.cfg, protocol=self.protocol)

    # ------------------------------------------------------------------------------------------ building blocks
    def label(self):
        if not self.share:
            if self.free is None:
                self.free = list(self.labels)
            if self.free and self.rng.random() < 0.7:
                return self.free.pop(self.rng.randrange(len(self.free)))
            return None
        return self.rng.choice(self.labels + [None]) if self.labels else None

    def common(self, leds=True):
        r = self.rng
        d = {"display": self.label()}
        if leds:
            d["use_leds"] = r.random() < 0.8
        if self.pager and r.random() < 0.6:
            d["id"] = r.choice([1, 2])
            d["enable_callback"] = self.pager.enable_callback
        return d

    def mapping(self, fn, *a):
        return self.W.get("pyswitch.clients.kemper.mappings." + fn)(*a)

    def encoder(self):
        r = self.rng
        k = r.choice(["amp", "bank", "transpose", "bpm", "generic"])
        prev = r.choice(self.named[:1] + self.labels + [None])
        kw = {"preview_display": prev}
        self.desc.append("enc " + k)
        if k != "bank" and r.random() < 0.5:
            E = self.W.get(LA + "encoder_button:ENCODER_BUTTON")
            kw["accept_action"] = E()
            self.encbuttons.append(kw["accept_action"])
            if r.random() < 0.5:
                kw["cancel_action"] = E()
                self.encbuttons.append(kw["cancel_action"])
        if k == "amp":
            return self.W.get(KA + "amp:AMP_GAIN")(**kw)
        if k == "bank":
            return self.W.get(KA + "bank_select_encoder:ENCODER_BANK_SELECT")(**kw)
        if k == "transpose":
            return self.W.get(KA + "rig_transpose:ENCODER_RIG_TRANSPOSE")(**kw)
        if k == "bpm":
            return self.W.get(KA + "tempo_bpm:ENCODER_BPM")(**kw)
        return self.W.get("pyswitch.controller.actions.EncoderAction:EncoderAction")(mapping=self.mapping("rig:MAPPING_RIG_VOLUME"), **kw)

    def analog(self):
        r = self.rng
        m = r.choice(["pedals:MAPPING_WAH_PEDAL", "pedals:MAPPING_VOLUME_PEDAL", "morph:MAPPING_MORPH_PEDAL", "system:MAPPING_MONITOR_VOLUME"])
        self.desc.append("pot " + m)
        kw = {}
        if r.random() < 0.3:
            kw["auto_calibrate"] = True
        return self.W.get("pyswitch.controller.actions.AnalogAction:AnalogAction")(mapping=self.mapping(m), **kw)

    ALL = ["bank_select", "bank_up", "bank_down", "effect_button", "effect", "effect_ext", "fixed", "loop", "morph", "morph_display", "rig_select", "rig_morph", "rig_up", "rig_down",
           "boost", "tap", "tempo", "tuner", "binary", "custom", "text", "hid", "param", "rotate", "boom"]

    def action(self, kind=None):
        r, W = self.rng, self.W
        k = kind or r.choice(self.kinds or self.ALL)
        while k == "pager":
            k = r.choice(self.kinds or self.ALL)
        self.desc.append(k)
        c = self.common()
        modes = [0, 10, 20, 30, 40, 50, 60]
        PB = W.get("pyswitch.controller.actions:PushButtonAction")
        mode = r.choice([PB.ENABLE, PB.DISABLE, PB.LATCH, PB.MOMENTARY, PB.MOMENTARY_INVERSE, PB.HOLD_MOMENTARY, PB.ONE_SHOT if self.internal else PB.LATCH])

        internal = self.internal

        def G(path):
            return W.get(path)
        color = r.choice(COL)
        if k == "bank_select":
            m = W.imp(KA + "bank_select")
            kw = dict(bank=r.choice([1, 2, 3, 7, 125]), display_mode=r.choice([10, 20]))
            if r.random() < 0.4:
                kw["bank_off"] = r.choice([1, 2, 9])
            kw["preselect"] = internal and r.random() < 0.4
            if r.random() < 0.3:
                kw["text"] = "B{bank}"
            return m.BANK_SELECT(**kw, **c)
        if k in ("bank_up", "bank_down"):
            m = W.imp(KA + "bank_up_down")
            kw = dict(display_mode=r.choice([10, 20]), preselect=internal and r.random() < 0.5)
            if r.random() < 0.3:
                kw["max_bank"] = r.choice([2, 5, 125])
            return (m.BANK_UP if k == "bank_up" else m.BANK_DOWN)(**kw, **c)
        if k == "effect_button":
            return G(KA + "effect_button:EFFECT_BUTTON")(num=r.choice([1, 2, 3, 4]), use_internal_state=internal and r.random() < 0.5, **c)
        if k in ("effect", "effect_ext"):
            f = G(KA + "effect_state:EFFECT_STATE") if k == "effect" else G(KA + "effect_state_extended_names:EFFECT_STATE_EXT")
            kw = {"show_slot_names": r.random() < 0.3}
            if r.random() < 0.2:
                kw["text"] = "Fx"
            if r.random() < 0.2:
                kw["color"] = color
            return f(slot_id=r.randrange(10), mode=mode, **kw, **c)
        if k == "fixed":
            m = W.imp(KA + "fixed_fx")
            return m.FIXED_EFFECT_STATE(slot=r.randrange(8), mode=mode, **c)
        if k == "loop":
            return G(KA + "looper:LOOPER_" + r.choice(["REC_PLAY_OVERDUB", "STOP", "ERASE", "CANCEL", "REVERSE", "TRIGGER", "HALF_SPEED"]))(**c)
        if k == "morph":
            return G(KA + "morph:MORPH_BUTTON")(color=r.choice(["kemper", color]), **c)
        if k == "morph_display":
            return G(KA + "morph:MORPH_DISPLAY")(**c)
        if k == "rig_select":
            m = W.imp(KA + "rig_select")
            kw = dict(rig=r.choice([1, 2, 3, 4, 5, None]), display_mode=r.choice([10, 20]))
            if r.random() < 0.4:
                kw["rig_off"] = r.choice([1, 3, "auto" if internal else 2])
            if r.random() < 0.4:
                kw["bank"] = r.choice([1, 2, 10, 125])
                if kw["rig"] is None:
                    kw["rig"] = 1
                if kw.get("rig_off"):
                    kw["bank_off"] = r.choice([1, 4, "auto" if internal else 2])
            if kw.get("rig_off") == "auto" and r.random() < 0.3:
                kw["auto_exclude_rigs"] = (2, 3)
            if r.random() < 0.3:
                kw["rig_btn_morph"] = True
                kw["momentary_morph"] = r.random() < 0.5
            if r.random() < 0.3:
                kw["text"] = "{bank}-{rig} {name}" if r.random() < 0.3 else "R{rig}"
            return m.RIG_SELECT(**kw, **c)
        if k == "rig_morph":
            f = G(KA + "rig_select_and_morph_state:RIG_SELECT_AND_MORPH_STATE")
            c2 = {x: c[x] for x in c if x in ("display", "use_leds", "id", "enable_callback")}
            return f(rig=r.choice([1, 2, 3]), morph_display=self.label(), morph_only_when_enabled=r.random() < 0.5, rig_btn_morph=r.random() < 0.5, **c2)
        if k in ("rig_up", "rig_down"):
            m = W.imp(KA + "rig_up_down")
            return (m.RIG_UP if k == "rig_up" else m.RIG_DOWN)(keep_bank=r.random() < 0.5, display_mode=r.choice([10, 20]), **c)
        if k == "boost":
            return G(KA + "rig_volume_boost:RIG_VOLUME_BOOST")(boost_volume=r.choice([0.5, 0.75, 1]), remember_off_value=internal and r.random() < 0.5, mode=mode, **c)
        if k == "tap":
            return G(KA + "tempo:TAP_TEMPO")(**c)
        if k == "tempo":
            return G(KA + "tempo:SHOW_TEMPO")(change_display=self.label(), **c)
        if k == "tuner":
            return G(KA + "tuner:TUNER_MODE")(mode=mode, **c)
        if k == "binary":
            m = r.choice(["rig:MAPPING_RIG_VOLUME", "amp:MAPPING_AMP_STATE", "cabinet:MAPPING_CABINET_STATE", "system:MAPPING_MAIN_VOLUME"] + (["freeze:MAPPING_FREEZE_ALL_GLOBAL"] if internal else []))
            kw = dict(value_on=r.choice([1, 100]), value_off=r.choice([0, "auto"] if internal else [0]), comparison_mode=r.choice([0, 10, 20, 30, 40, 999] if internal else [0, 10, 20, 30, 40]), use_internal_state=internal and r.random() < 0.3)
            return G(LA + "binary_switch:BINARY_SWITCH")(mapping=self.mapping(m), mode=mode, text="Bin", color=color, **kw, **c)
        if k == "custom":
            return G(LA + "custom:CUSTOM_MESSAGE")(message=[176, r.randrange(60, 70), r.randrange(128)], message_release=r.choice([None, [192, 5]]), text="C", color=color, **c)
        if k == "text":
            c.pop("use_leds")
            return G(LA + "fixed_text:DISPLAY_FIXED_TEXT")(text="Fix", back_color=r.choice([None, color]), text_color=r.choice([None, color]), **c)
        if k == "hid":
            return G(LA + "hid:HID_KEYBOARD")(keycodes=r.choice([4, [4, 5]]), text="K", color=color, **c)
        if k == "param":
            m = r.choice(["rig:MAPPING_RIG_VOLUME", "amp:MAPPING_AMP_GAIN", "system:MAPPING_MAIN_VOLUME"])
            return G(LA + "param_change:PARAMETER_UP_DOWN")(mapping=self.mapping(m), offset=r.choice([-100, -1, 1, 500]), change_display=self.label(), **c)
        if k == "rotate":
            nl = r.choice([1, 2])
            cols = [[r.choice(COL) for _ in range(r.choice([1, 2, 3]))] for _ in range(nl)]
            return G(LA + "rotate:ROTATING_MESSAGES")(messages=[[176, 60 + i, i] for i in range(r.choice([1, 2, 3]))], texts=["A", "B", "C"],
                                                     led_colors=cols if nl > 1 else r.choice([None, cols[0]]), num_leds=nl, **c)
        if k == "boom":
            return G("pyswitch.clients.boomerang.actions.boomerang:BOOMERANG_" + r.choice(BOOM))(**c)
        raise KeyError(k)

    # ------------------------------------------------------------------------------------------ what a user sees
    def observe(self):
        labs = [(l.text, l.back_color, l.text_color) for l in self.labels + self.named]
        return {"leds": self.R.leds, "labels": labs, "root": self.splash_index()}

    def splash_index(self):
        seq = []
        for _, g in self.R.display.shown:
            if g not in seq:
                seq.append(g)
        return len(self.R.display.shown), (None if self.R.display.root is None else seq.index(self.R.display.root))


PAGES = [0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d]


def kemper(fn, page, addr, payload, prefix=b"\x00\x00"):
    return rig.sysex(b"\x00\x20\x33", prefix + bytes([fn, 0, page, addr]) + bytes(payload))


SENSE = rig.sysex(b"\x00\x20\x33", bytes([0, 0, 0x7e, 0, 0x7f]))


def known_message(r):
    """A regular message of the device for some parameter: list of raw messages."""
    k = r.randrange(13)
    v = r.choice([0, 1, 2, 127, 128, 8192, 16383, r.randrange(16384)])
    val = [v >> 7, v & 127]
    if k == 0:
        return [kemper(1, r.choice(PAGES), 3, [0, r.choice([0, 1])])]
    if k == 1:
        t = r.choice([0, 1, 11, 33, 49, 64, 97, 129, 146, 162, 179, 193, r.randrange(256)])
        return [kemper(1, r.choice(PAGES), 0, [t >> 7, t & 127])]
    if k == 2:
        txt = "".join(chr(r.randrange(32, 127)) for _ in range(r.choice([0, 1, 10, 40])))
        return [kemper(3, 0, r.choice([1, 3, 4, 0x10, 0x20]), txt.encode() + b"\0")]
    if k == 3:
        i = r.choice([0, 1, 4, 5, 9, 127, 128, 312, 624, r.randrange(625)])
        return [rig.cc(32, i >> 7), rig.pc(i & 127)]
    if k == 4:
        return [kemper(1, 0x7f, 0x7e, [0, r.choice([0, 1, 1, 3])])]
    if k == 5:
        return [kemper(1, 0x7d, 0x54, [0, r.randrange(128)])]
    if k == 6:
        return [kemper(1, 0x7c, 0x0f, val)]
    if k == 7:
        return [kemper(1, 0x7c, 0, [0, r.choice([0, 1])])]
    if k == 8:
        return [kemper(1, 0, 0x0b, val)]
    if k == 9:
        return [kemper(1, 4, r.choice([0, 1, 4]), val)]
    if k == 10:
        return [kemper(1, r.choice([0x0a, 0x0c]), r.choice([2, 4]), val)]
    if k == 11:
        return [kemper(1, 5, r.choice([1, 6, 11, 16, 21, 26, 36, 41]), [0, r.choice([0, 1])])]
    return [SENSE]
