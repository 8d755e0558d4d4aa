"""LED segments: a reference partition predicts every LED after every drawing of every action."""
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "C03"
RULE = ("A case is a controller with 1-3 switches (0-6 LEDs each, shuffled LED indices, 1-7 actions and hold actions, some not using LEDs) under a "
        "random history of colour/brightness changes (single and multi colour), device value reports, enable changes and periodic updates; "
        "non-trivial when LEDs were shared; signature = LED/action counts plus sequence of partitions drawn.")
CASES = {"quick": 4000, "thorough": 60000}
FLOORS = {"draws": 5000, "shared_draws": 1000, "multi_full": 100, "multi_middle": 100, "enable_changes": 500, "overflow": 100, "led_checks": 20000}
LEVEL_NOTE = ("Exploration: every LED of the real controller is compared after every step with a reference division of LEDs among the enabled "
              "actions; an LED whose owner changed but did not draw yet may still show its previous look. Tolerance 1/255 per channel.")


class EnableCb:
    def __init__(self, on):
        self.on, self.action = on, None

    def init(self, appl):
        pass

    def enabled(self, action):
        return self.on


def partition(n, P):
    if n == 0 or P == 0:
        return []
    if n == 1:
        return [list(range(P))]
    if n < P:
        first = P - n + 1
        return [list(range(first))] + [[first + i] for i in range(n - 1)]
    return [[i] if i < P else [] for i in range(n)]


def close(a, b):
    return all(abs(x - y) <= 1 for x, y in zip(a, b))


def run_case(rng, rec, tier):
    W = env.World()
    A = W.imp("pyswitch.controller.actions")
    BPC = W.get("pyswitch.controller.callbacks:BinaryParameterCallback")
    Callback = W.get("pyswitch.controller.callbacks:Callback")
    Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
    CC = W.get("adafruit_midi.control_change:ControlChange")

    class Painter(Callback):
        def __init__(self, color, bright):
            Callback.__init__(self)
            self.color, self.bright = color, bright

        def push(self):
            pass

        def release(self):
            pass

        def update_displays(self):
            self.action.switch_color = self.color
            self.action.switch_brightness = self.bright

    def rcol():
        return tuple(rng.choice([0, 255, 128, rng.randint(0, 255)]) for _ in range(3))

    def rcolor():
        if rng.random() < 0.5:
            return rcol()
        return tuple(rcol() for _ in range(rng.randint(1, 5)))

    nsw = rng.randint(1, 3)
    npix = [rng.choice([0, 1, 2, 3, 3, 3, 4, 5, 6]) for _ in range(nsw)]
    idx = list(range(sum(npix) + rng.choice([0, 0, 2])))
    rng.shuffle(idx)
    sw, inputs = [], []
    cc = 0
    for s in range(nsw):
        pix = tuple(idx.pop() for _ in range(npix[s]))
        acts = []
        for i in range(rng.randint(1, 7) if rng.random() < 0.5 else rng.randint(1, 4)):
            en = EnableCb(rng.random() < 0.7) if rng.random() < 0.7 else None
            uses = rng.random() < 0.85
            cfg = {"useSwitchLeds": uses, "enableCallback": en}
            if rng.random() < 0.6:
                cb = Painter(rcolor(), rng.choice([0, 1, 0.02, 0.3, round(rng.random(), 3)]))
                cfg["callback"] = cb
                a = {"kind": "paint", "cb": cb, "act": A.Action(cfg)}
            else:
                c = cc
                cc += 1
                col = rcolor()
                bon, boff = round(rng.random(), 3), round(rng.random(), 3)
                cb = BPC(mapping=Mapping.get(name="m%d" % c, set=CC(c, 0), response=CC(c, 0)), color=col, value_enable=64,
                         led_brightness_on=bon, led_brightness_off=boff)
                cfg["callback"] = cb
                a = {"kind": "bin", "cb": cb, "act": A.PushButtonAction(cfg), "cc": c, "col": col, "bon": bon, "boff": boff, "state": False}
            a.update(en=en, uses=uses, was=(en is None or en.on))
            acts.append(a)
        k = rng.choice([0, 0, 1, len(acts)])
        d = {"assignment": {"model": rig.SwModel(), "pixels": pix}, "actions": [a["act"] for a in acts[:len(acts) - k]]}
        if k:
            d["actionsHold"] = [a["act"] for a in acts[len(acts) - k:]]
        inputs.append(d)
        sw.append({"pix": pix, "acts": acts, "part": None})
    R = rig.Rig(W, inputs=inputs, ui=False, config={"updateInterval": 100})
    want_n = max([p for s in sw for p in s["pix"]], default=-1) + 1
    check(want_n == 0 or R.led_driver.n == want_n, lambda: "LED driver set up for %r LEDs, %d needed" % (R.led_driver.n, want_n))
    sig = []

    def on(a):
        return a["en"] is None or a["en"].on

    def users(s):
        return [a for a in s["acts"] if a["uses"] and on(a)]

    def look(a):
        if a["kind"] == "paint":
            return a["cb"].color, a["cb"].bright
        return a["col"], (a["bon"] if a["state"] else a["boff"])

    def owner_look(a, segs, seg):
        color, b = look(a)
        if isinstance(color[0], tuple):
            if len(color) == len(segs):
                rec.n("multi_full")
                color = color[segs.index(seg)]
            else:
                rec.n("multi_middle")
                color = color[len(color) // 2]
        return tuple(int(x * b) for x in color)

    allowed = {}     # pixel -> set of allowed looks (None = anything)
    for s in sw:
        for p in s["pix"]:
            allowed[p] = None

    def redistribute(s):
        """partition may have changed: old look and new owner's look both allowed"""
        u = users(s)
        parts = partition(len(u), len(s["pix"]))
        key = tuple(id(a) for a in u)
        if key == s["part"]:
            return
        s["part"] = key
        for a, segs in zip(u, parts):
            for seg in segs:
                p = s["pix"][seg]
                if allowed[p] is not None:
                    allowed[p] = allowed[p] | {owner_look(a, segs, seg)}

    def draw(s, a):
        if not on(a):
            return
        rec.n("draws")
        if not a["uses"] or not s["pix"]:
            return
        u = users(s)
        parts = partition(len(u), len(s["pix"]))
        segs = parts[[id(x) for x in u].index(id(a))]
        if len(u) > 1:
            rec.n("shared_draws")
        if len(u) > len(s["pix"]):
            rec.n("overflow")
        for seg in segs:
            allowed[s["pix"][seg]] = {owner_look(a, segs, seg)}
        sig.append((sw.index(s), len(u), tuple(segs)))
        s["part"] = tuple(id(x) for x in u)

    def verify(what):
        leds = R.leds
        for p, al in allowed.items():
            if al is None:
                continue
            rec.n("led_checks")
            if not any(close(leds[p], x) for x in al):
                raise Violation("after %s: LED %d shows %r, expected %s (switch LEDs %r)" % (
                    what, p, leds[p], " or ".join(map(repr, al)), [s["pix"] for s in sw]))

    # construction draws all enabled actions in order
    for s in sw:
        for a in s["acts"]:
            draw(s, a)
    verify("construction")
    # first update resets and redraws everything
    R.tick(150)
    for s in sw:
        for a in s["acts"]:
            draw(s, a)
    verify("first update")
    for step in range(rng.randint(5, 40)):
        s = rng.choice(sw)
        a = rng.choice(s["acts"])
        r = rng.random()
        if r < 0.45:
            if a["kind"] == "paint":
                if rng.random() < 0.7:
                    a["cb"].color = rcolor()
                if rng.random() < 0.5:
                    a["cb"].bright = rng.choice([0, 1, round(rng.random(), 3)])
                a["act"].update_displays()
                draw(s, a)
                what = "repaint of action %d of switch %d in %r" % (s["acts"].index(a), sw.index(s), look(a))
            else:
                v = rng.choice([0, 10, 100, 127])
                R.feed(rig.cc(a["cc"], v))
                R.tick(1)
                st = v >= 64
                what = "value %d of action %d of switch %d" % (v, s["acts"].index(a), sw.index(s))
                if on(a):
                    if st != a["state"]:
                        a["state"] = st
                        draw(s, a)
                else:
                    a["pending"] = st
                a["last"] = v
            rec.ev(what)
            verify(what)
        elif r < 0.75:
            for _ in range(rng.randint(1, 3)):
                s = rng.choice(sw)
                a = rng.choice(s["acts"])
                if a["en"]:
                    a["en"].on = not a["en"].on
                    rec.n("enable_changes")
                    rec.ev("enable", sw.index(s), s["acts"].index(a), a["en"].on)
            # periodic update
            R.tick(150)
            for s in sw:
                redistribute(s)
            for s in sw:
                for a in s["acts"]:
                    if on(a) != a["was"]:
                        a["was"] = on(a)
                        if a["kind"] == "bin" and on(a):
                            a["state"] = a.get("last") is not None and a["last"] >= 64
                        draw(s, a)
            verify("enable changes and update")
        else:
            R.tick(rng.choice([1, 150]))
            verify("idle tick")
    if any(x[1] > 1 for x in sig):
        rec.sig((tuple(npix), tuple(len(s["acts"]) for s in sw), tuple(sig)))
