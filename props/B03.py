"""Explore mode: boards with random pins, pressed in random combinations."""
import types
from vlib import env, rig, hw
from vlib.runner import check, eq

ID = "B03"
RULE = ("A case is a board (random pin names, pins which cannot be used as inputs or are in use, up to 30), LEDs per pin, columns, with or without a screen, or the real process.py on the simulated board, "
        "and a history of presses (also several at once, bouncing). Signature = board and history.")
CASES = {"quick": 2500, "thorough": 40000}
FLOORS = {"presses": 14000, "multi": 3000, "label_checks": 200000, "led_checks": 550000, "wraps": 3000, "back_steps": 6500, "unusable": 2000, "real_boards": 170, "console": 14000, "repeated": 400}
LEVEL_NOTE = "Exploration: names and marks of all pins, the shown LED, the printed names and all LED values after every processing step."

RED, LIGHT, DARK = "red", "light", "dark"


class Pin:
    def __init__(self, name, bad):
        self.name, self.bad, self.level = name, bad, True

    def __repr__(self):
        return "pin " + self.name


def run_case(rng, rec, tier):
    r = rng
    W = env.World()
    Colors = W.get("pyswitch.colors:Colors")
    cols = {RED: Colors.RED, LIGHT: Colors.LIGHT_BLUE, DARK: Colors.DARK_BLUE}
    real = r.random() < 0.25
    ui = real or r.random() < 0.7
    hist = []
    if real:
        import sys
        m = types.ModuleType("config")
        m.Config = {"exploreMode": True}
        sys.modules["config"] = m
        for n in ("communication", "display", "inputs"):
            sys.modules.pop(n, None)
        names = ["GP%d" % i for i in range(30)]
        for n in r.sample(names, r.randint(0, 10)):
            if n not in ("GP7", "GP12", "GP13", "GP14", "GP15"):
                p = getattr(W.hw.board, n)
                if r.random() < 0.5:
                    p.claim("something")
                else:
                    delattr(W.hw.board, n)
        for n in ("LED", "A0", "VOLTAGE_MONITOR", "SPI"):
            setattr(W.hw.board, n, W.hw.Pin(n) if hasattr(W.hw, "Pin") else object())
        used = ("GP7", "GP12", "GP13", "GP14", "GP15")
        exp = [n for n in names if hasattr(W.hw.board, n) and getattr(W.hw.board, n).owner is None and n not in used]
        rec.n("unusable", len([n for n in names if hasattr(W.hw.board, n)]) - len(exp))
        pins = {n: getattr(W.hw.board, n) for n in exp}
        npix = 3
        total = len([n for n in names if hasattr(W.hw.board, n)]) * npix
        rec.n("real_boards")
    else:
        names = ["GP%d" % i for i in r.sample(range(40), r.randint(1, 30))]
        board = types.SimpleNamespace()
        all_ = {}
        nbad = r.choice([0, 0, 1, 3, 8])
        bad = set(r.sample(names, min(nbad, len(names) - 1)))
        for n in names:
            all_[n] = Pin(n, n in bad)
            setattr(board, n, all_[n])
        for n in r.sample(["LED", "A0", "I2C", "VBUS", "board_id", "SMPS_MODE"], 3):
            setattr(board, n, Pin(n, False))
        exp = [n for n in names if n not in bad]
        rec.n("unusable", len(bad))
        pins = {n: all_[n] for n in exp}
        npix = r.choice([1, 2, 3, 3, 4])
        total = len(names) * npix

    st = {"c": None, "leds": None, "display": None}

    def model_order(c):
        """The order in which pins were assigned (their LED positions): by the names their actions print; observed once."""
        return st["order"]

    def check_all(why):
        leds = list(st["leds"]())
        if st["idx"] is not None:
            lit = range(st["idx"] * npix, (st["idx"] + 1) * npix)
            for p in range(len(exp) * npix):
                rec.n("led_checks")
                v = leds[p]
                if p in lit:
                    eq(v, (255, 255, 255), "%s: LED %d of the shown position %d" % (why, p, st["idx"]))
                else:
                    check(0 < max(v) < 60, lambda: "%s: LED %d is %r while position %d is shown" % (why, p, v, st["idx"]))
        if ui:
            els = rig.find_screen(st["display"]())
            labels = [(x, y, e) for x, y, e in els if isinstance(e, hw.Label)]
            rects = [(x, y, e) for x, y, e in els if not isinstance(e, hw.Label)]
            texts = [e.text for _, _, e in labels]
            rec.n("label_checks", len(texts))
            eq(sorted(t for t in texts if t.startswith("GP")), sorted(exp), "%s: names shown" % why)
            rest = [t for t in texts if not t.startswith("GP")]
            eq(len(rest), 1, "LED display")
            if st["idx"] is not None:
                want = ", ".join(str(p) for p in range(st["idx"] * npix, (st["idx"] + 1) * npix))
                check("(%s)" % want in rest[0], lambda: "%s: LEDs shown are %r, expected (%s)" % (why, rest[0], want))
            eq(len(rects), len(labels), "backgrounds")
            for (x, y, e), (_, _, l) in zip(rects, labels):
                if not l.text.startswith("GP"):
                    continue
                w = st["marks"].get(l.text, DARK)
                eq(tuple(e.fill), tuple(cols[w]), "%s: mark of %s" % (why, l.text))
            boxes = [(x + e.x, y + e.y, e.width, e.height) for x, y, e in rects]
            for i, (x, y, w, h) in enumerate(boxes):
                check(w > 0 and h > 0 and x >= 0 and y >= 0 and x + w <= 240 and y + h <= 240, lambda: "label %r outside of the screen" % (boxes[i],))
                for j in range(i):
                    a, b, c, d = boxes[j]
                    check(x + w <= a or a + c <= x or y + h <= b or b + d <= y, lambda: "labels overlap: %r %r" % (boxes[i], boxes[j]))

    steps = r.randint(5, 40)
    down = set()
    S = {"n": 0}
    st.update(idx=None, marks={}, order=sorted(exp), cur=-1, latest=None)

    def before():
        """random pin changes; returns the pins pressed in this step"""
        pressed = []
        n = r.choice([0, 1, 1, 1, 2, 3, 6])
        for name in r.sample(exp, min(n, len(exp))):
            p = pins[name]
            if name in down:
                down.discard(name)
                p.level = True
            else:
                down.add(name)
                p.level = False
                pressed.append(name)
        hist.append((tuple(pressed), tuple(sorted(down))))
        return pressed

    def after(pressed, c):
        # the order in which simultaneously pressed pins are processed is the order in which pins were assigned
        order = sorted(pressed, key=lambda x: st["order"].index(x))
        rec.n("presses", len(order))
        rec.n("multi", int(len(order) > 1))
        for n in order:
            i = st["order"].index(n)
            step = 1 if i % 2 == 0 else -1
            rec.n("back_steps", int(step < 0))
            k = st["cur"] + step
            if k >= len(exp):
                k = 0
                rec.n("wraps")
            if k < 0:
                k = len(exp) - 1
                rec.n("wraps")
            st["cur"] = st["idx"] = k
            if st["latest"] == n:
                rec.n("repeated")
            if st["latest"]:
                st["marks"][st["latest"]] = LIGHT
            st["latest"] = n
            st["marks"][n] = RED
        txt = W.printed[S["np"]:]
        for name in exp:
            cnt = sum(("board." + name) in t.replace("(", " ").split() or ("board.%s " % name) in t + " " for t in txt)
            eq(cnt, order.count(name), "console output of %s (pressed %r)" % (name, order))
        rec.n("console", len(txt))
        check_all("after pressing %r" % (order,))
        rec.state((len(exp), npix, st["cur"], len(down)))

    if real:
        E = W.get("pyswitch.controller.explore:ExploreModeController")
        tick0 = E.tick

        def tick(self):
            if S["n"] == 0:
                st["leds"] = lambda: W.hw.neopixels[0].v
                st["display"] = lambda: W.hw.displays[0].root_group
                check(W.hw.neopixels[0].n >= len(exp) * npix, "too few LEDs set up")
                check_all("at start")
            S["n"] += 1
            W.clock.advance(r.choice([1, 10, 300]))
            S["np"] = len(W.printed)
            pressed = before()
            r0 = tick0(self)
            after(pressed, self)
            return r0 and S["n"] < steps
        E.tick = tick
        W.imp("pyswitch.process")
        eq(S["n"], steps, "steps")
    else:
        class Sw:
            def __init__(self, p):
                self.p = p

            def init(self):
                if self.p.bad:
                    raise ValueError("%s in use" % self.p.name)

            @property
            def pushed(self):
                return not self.p.level

        class Factory:
            def create_switch(self, port):
                return Sw(port)
        E = W.get("pyswitch.controller.explore:ExploreModeController")
        drv = rig.LedDriver(W)
        disp = rig.DisplayDriver(W)
        kw = {}
        if ui:
            kw["ui"] = W.get("pyswitch.ui.UiController:UiController")(display_driver=disp, font_loader=rig.FontLoader())
        if r.random() < 0.6 and len(exp) < 20:
            kw["num_port_columns"] = r.choice([1, 2, 5, 8])
        c = E(board=board, switch_factory=Factory(), led_driver=drv, num_pixels_per_switch=npix, **kw)
        st["leds"] = lambda: drv.leds.v
        st["display"] = lambda: disp.root
        check(drv.n >= len(exp) * npix, "too few LEDs set up")
        if not ui:
            txt = "\n".join(W.printed)
            for n in exp:
                check(n in txt.replace(",", " ").split(), lambda: "%s not listed" % n)
        c.init()
        check_all("at start")
        for _ in range(steps):
            W.clock.advance(r.choice([1, 10, 300]))
            S["np"] = len(W.printed)
            pressed = before()
            check(c.tick() is True, "tick() ended")
            after(pressed, c)
    rec.ev(len(hist))
    rec.sig((tuple(exp), npix, repr(hist)))
