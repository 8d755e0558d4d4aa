"""Value previews: a model of the shown text, expiry window and blinking follows every call and tick."""
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "C07"
RULE = ("A case is a running controller with 1-2 labels (driven by a parameter display or plain), several preview sources per label (clients with and without "
        "cancel, some resetting on cancel, real parameter up/down, pedal and encoder actions) under a random history of previews, ends, device changes and time; "
        "non-trivial when a preview ended; signature = the event/option pattern.")
CASES = {"quick": 3500, "thorough": 60000}
FLOORS = {"previews": 6000, "expired": 1200, "ended": 500, "toggles": 2500, "changed_during": 800, "cancelled": 600, "stay": 500, "color_back": 200}
LEVEL_NOTE = ("Exploration: text and colour on the screen are compared with a model after every tick of the real controller in seeded histories; expiry and "
              "blink toggles are judged with one update interval of tolerance.")


class Client:
    def __init__(self, vp, mode):
        self.vp, self.mode, self.n = vp, mode, 0

    def cancel(self):
        self.n += 1
        if self.mode == "reset":
            self.vp.reset(immediately=True)


class En:
    def __init__(self):
        self.on = True


def run_case(rng, rec, tier):
    W = env.World(start_ms=rng.choice([5000, 100000]))
    VP = W.get("pyswitch.controller.preview:ValuePreview")
    PDC = W.get("pyswitch.controller.callbacks.parameter_display:ParameterDisplayCallback")
    Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
    Updateable = W.get("pyswitch.misc:Updateable")
    el, uim = W.imp("pyswitch.ui.elements"), W.imp("pyswitch.ui.ui")
    CC = W.get("adafruit_midi.control_change:ControlChange")
    interval = rng.choice([50, 100, 200])
    labs, inputs = [], []
    pot = None
    for i in range(rng.choice([1, 1, 2])):
        L = {"i": i, "override": None, "stay": False, "until": None, "timeout": None, "blink": None, "blinkcolor": None, "last_toggle": None,
             "clients": [], "known": [], "ended_at": None, "base": "", "own": None}
        L["callback"] = rng.random() < 0.65
        tc = rng.choice([None, None, (10, 200, 30)])
        lay = {"font": "/f", "text": "t%d" % i}
        back = rng.choice([None, (0, 0, 0), (250, 250, 250)])
        if back:
            lay["backColor"] = back
        if tc:
            lay["textColor"] = tc
        L["color"] = tc or ((0, 0, 0) if back and sum(back) > 400 else (255, 255, 255))
        cb = None
        if L["callback"]:
            L["m"] = Mapping.get(name="p%d" % i, response=CC(10 + i, 0))
            cb = PDC(mapping=L["m"], default_text="none%d" % i)
            L["base"] = "t%d" % i
        else:
            L["base"] = "t%d" % i
        L["label"] = el.DisplayLabel(layout=lay, bounds=uim.DisplayBounds(0, 50 * i, 100, 40), callback=cb)
        if rng.random() < 0.6:
            L["vp"] = VP.get(L["label"])
        labs.append(L)
    # real sources on label 0
    real = rng.random() < 0.5
    updown = None
    if real:
        UD = W.get("pyswitch.clients.local.actions.param_change:PARAMETER_UP_DOWN")
        AA = W.get("pyswitch.controller.actions.AnalogAction:AnalogAction")
        um = Mapping.get(name="ud", set=CC(30, 0), response=CC(30, 0))
        updown = {"m": rig.SwModel(), "val": None, "off": rng.choice([-10, 10, 64]), "to": rng.choice([300, 1500])}
        cbk = rng.choice([None, lambda v: "v=%d" % v])
        updown["cb"] = cbk
        inputs.append({"assignment": {"model": updown["m"]}, "actions": [UD(mapping=um, offset=updown["off"], repeat_interval_millis=None, use_leds=False,
                       change_display=labs[0]["label"], change_timeout_millis=updown["to"], preview_text_callback=cbk)]})
        pot = {"m": rig.PotModel(0), "to": rng.choice([300, 1500]), "val": None}
        am = Mapping.get(name="an", set=CC(31, 0))
        inputs.append({"assignment": {"model": pot["m"]}, "actions": [AA(mapping=am, auto_calibrate=False, change_display=labs[0]["label"],
                       change_timeout_millis=pot["to"])]})
        labs[0]["vp"] = VP.get(labs[0]["label"])
    R = rig.Rig(W, inputs=inputs, labels=[L["label"] for L in labs], config={"updateInterval": interval})
    for L in labs:
        if "vp" not in L:
            L["vp"] = VP.get(L["label"])
        eq(VP.get(L["label"]) is L["vp"], True, "one preview handler per label")
        for k in range(rng.choice([1, 1, 2, 3])):      # several owners call update()
            class Owner(Updateable):
                def __init__(self, vp):
                    self.vp = vp

                def update(self):
                    self.vp.update()
            R.c.add_updateable(Owner(L["vp"]))
        L["clients"] = [Client(L["vp"], rng.choice(["none", "reset"])) for _ in range(rng.choice([0, 1, 2, 3]))]
    els = [e for _, _, e in rig.find_screen(R.display.root) if hasattr(e, "text")]
    eq(len(els), len(labs), "labels on the screen")
    for L, e in zip(labs, els):
        L["el"] = e
        L["seen"] = len(e.colors)
    sig, tol = [], 2 * interval + 30
    what = ""

    def end(L):
        L["override"], L["until"], L["stay"] = None, None, False
        L["blink"] = None

    def preview(L, text, client, stay, timeout, blink, color):
        for c in L["known"]:
            if c is not client:
                c.want += 1
                if c.mode == "reset":
                    L["blink"] = None
                rec.n("cancelled")
        if client is not None and client not in L["known"]:
            client.want = client.n
            L["known"].append(client)
        if L["override"] is None:
            L["last_toggle"] = None
        L["override"], L["stay"], L["timeout"] = text, stay, timeout
        L["until"] = W.clock.ms + timeout if timeout else None
        if blink is None or L["blink"] != blink:
            L["last_toggle"] = None
            L["blink_since"] = W.clock.ms
        L["blink"], L["blinkcolor"] = blink, color
        rec.n("previews")
        if stay:
            rec.n("stay")

    def observe():
        now = W.clock.ms
        for L in labs:
            text, color = L["el"].text, L["el"].color
            where = lambda: "label %d after %s at %d" % (L["i"], what, now)
            check(L["label"].text == text, lambda: "%s: text property %r, on screen %r" % (where(), L["label"].text, text))
            # expiry
            if L["override"] is not None and L["until"] is not None and not L["stay"] and now > L["until"]:
                if (text != L["override"] and L["own"] is None) or now > L["until"] + tol:
                    rec.n("expired")
                    if L["blink"]:
                        rec.n("color_back")
                    end(L)
                    sig.append("x")
                    if L["own"] is not None:
                        L["base"] = L["own"]
                        L["own"] = None
            want = L["override"] if L["override"] is not None else L["base"]
            if L["override"] is not None and L["own"] is not None:
                check(text in (want, L["own"]), lambda: "%s: text %r, expected %r or %r" % (where(), text, want, L["own"]))
            elif text != want:
                raise Violation("%s: shows %r, expected %r (preview %r, until %r, stay %s)" % (where(), text, want, L["override"], L["until"], L["stay"]))
            # colours
            news = L["el"].colors[L["seen"]:]
            L["seen"] = len(L["el"].colors)
            if L["override"] is None or not L["blink"]:
                if color != L["color"]:
                    raise Violation("%s: text colour %r, expected %r (no blinking preview)" % (where(), color, L["color"]))
            elif L["until"] is not None and not L["stay"] and now > L["until"]:
                pass        # about to expire
            else:
                check(color in (L["color"], L["blinkcolor"]), lambda: "%s: text colour %r" % (where(), color))
                if L["blinkcolor"] != L["color"]:
                    if L["last_toggle"] is not None and news:
                        check(len(news) == 1, lambda: "%s: %d colour changes at once" % (where(), len(news)))
                        d = now - L["last_toggle"]
                        check(d >= L["blink"], lambda: "%s: blinked after %d ms, interval is %d" % (where(), d, L["blink"]))
                        rec.n("toggles")
                        L["last_toggle"] = now
                    elif news:
                        L["last_toggle"] = now
                    base = L["last_toggle"] if L["last_toggle"] is not None else L["blink_since"]
                    if L["last_toggle"] is None:
                        # the first change may be invisible (same colour again)
                        check(now - base <= 2 * L["blink"] + 2 * tol, lambda: "%s: does not blink since %d ms" % (where(), now - base))
                    else:
                        check(now - base <= L["blink"] + tol, lambda: "%s: no blinking for %d ms, interval is %d" % (where(), now - base, L["blink"]))
            for c in L["known"]:
                if c.n != c.want:
                    raise Violation("%s: cancel() called %d times on a source, expected %d" % (where(), c.n, c.want))

    def tick(ms):
        dt = rng.choice([5, 20, 33])
        t = 0
        while t < ms:
            R.tick(min(dt, ms - t))
            t += dt
            observe()

    def pedal():
        for t, m in R.sent():
            if m[:2] == bytes([0xB0, 31]):
                preview(labs[0], "an: %d%%" % round(m[2] * 100 / 127), None, False, pot["to"], None, None)
                labs[0]["until"] = t + pot["to"]
                if labs[0]["own"] is not None:
                    labs[0]["base"], labs[0]["own"] = labs[0]["own"], None

    # first device values
    for L in labs:
        if L["callback"]:
            v = rng.randint(0, 127)
            R.feed(rig.cc(10 + L["i"], v))
            L["base"] = str(v)
    if real:
        updown["val"] = 50
        R.feed(rig.cc(30, 50))
    R.settle()
    pedal()
    R.sent_msgs()
    observe()
    n = 0
    for step in range(rng.randint(6, 40)):
        L = rng.choice(labs)
        r = rng.random()
        if r < 0.42:
            n += 1
            text = "preview%d" % n if rng.random() < 0.9 else "same"
            client = rng.choice(L["clients"] + [None])
            stay = rng.random() < 0.25
            timeout = rng.choice([None, 200, 700, 1500]) if stay else rng.choice([200, 700, 1500])
            blink = rng.choice([None, None, 100, 400])
            color = (200, 200, 200)
            if blink and L["blink"] is None:
                pass
            what = "preview(%r, stay=%s, timeout=%r, blink=%r, client=%s)" % (text, stay, timeout, blink, client is not None)
            sig.append(("p", stay, timeout, blink, client and client.mode))
            kw = {}
            if client is not None:
                kw["client"] = client
            if rng.random() < 0.2:
                mx = rng.choice([127, 16383])
                v = rng.randint(0, mx)
                cv = rng.choice([None, lambda p: "<%d>" % p])
                m = Mapping.get(name="Abc", set=CC(90, 0))
                text = cv(v) if cv else "Abc: %d%%" % round(v * 100 / mx)
                what = "preview_mapping(%d of %d)" % (v, mx)
                preview(L, text, client, stay, timeout, blink, color)
                L["vp"].preview_mapping(value=v, mapping=m, max_value=mx, stay=stay, timeout_millis=timeout, blink_interval_millis=blink, blink_color=color,
                                        text_callback=cv, **kw)
            else:
                preview(L, text, client, stay, timeout, blink, color)
                L["vp"].preview(text, stay=stay, timeout_millis=timeout, blink_interval_millis=blink, blink_color=color, **kw)
            if L["own"] is not None:
                L["base"], L["own"] = L["own"], None
        elif r < 0.52:
            imm = rng.random() < 0.5
            what = "reset(%s)" % imm
            sig.append(("r", imm, L["override"] is not None))
            L["vp"].reset(immediately=imm) if rng.random() < 0.8 or imm else L["vp"].reset()
            if L["override"] is not None:
                rec.n("ended")
                if L["blink"]:
                    rec.n("color_back")
                if imm or L["until"] is None:
                    end(L)
                    if L["own"] is not None:
                        L["base"], L["own"] = L["own"], None
                else:
                    L["stay"], L["blink"] = False, None
                    L["until"] = W.clock.ms + L["timeout"]
        elif r < 0.7:
            if L["callback"]:
                v = rng.randint(0, 127)
                what = "device value %d" % v
                if L["override"] is not None:
                    rec.n("changed_during")
                R.feed(rig.cc(10 + L["i"], v))
                sig.append("d")
                R.tick(1)
                L["base"] = str(v)
            else:
                n += 1
                what = "label text set"
                t = "own%d" % n
                if L["override"] is not None:
                    rec.n("changed_during")
                    L["own"] = t
                else:
                    L["base"] = t
                L["label"].text = t
                sig.append("o")
        elif r < 0.8 and real:
            L = labs[0]
            if rng.random() < 0.5:
                v = max(0, min(127, updown["val"] + updown["off"]))
                p = round(v * 100 / 127)
                what = "up/down push to %d" % v
                updown["m"].down = True
                preview(L, updown["cb"](v) if updown["cb"] else "ud: %d%%" % p, None, False, updown["to"], None, None)
                if L["own"] is not None:
                    L["base"], L["own"] = L["own"], None
                L["until"] += 2
                R.tick(2)
                updown["m"].down = False
                if rng.random() < 0.5:
                    R.feed(rig.cc(30, v))
                    updown["val"] = v
                    R.settle()
                else:
                    updown["val"] = v
                sig.append("u")
            else:
                v = rng.randint(0, 127)
                if v != pot["val"]:
                    R.clock.advance(60)
                    what = "pedal to %d" % v
                    pot["m"].v = v * 512 + 200
                    R.sent_msgs()
                    R.tick(50)
                    pedal()
                    pot["val"] = v
                    sig.append("a")
        else:
            what = "time"
            tick(rng.choice([50, 300, 1000, 2500]))
        R.tick(1)
        rec.ev(W.clock.ms, what, [(x["override"], x["until"], x["stay"], x["blink"], x["base"]) for x in labs], [x["el"].text for x in labs])
        observe()
    what = "the end"
    for L in labs:
        if L["override"] is not None and L["stay"]:
            L["vp"].reset(immediately=True)
            end(L)
            if L["own"] is not None:
                L["base"], L["own"] = L["own"], None
    tick(4000)
    for L in labs:
        check(L["override"] is None or L["until"] is None, "preview never ended")
    if "x" in sig or any(isinstance(s, tuple) and s[0] == "r" for s in sig):
        rec.sig((len(labs), tuple(sig)))
