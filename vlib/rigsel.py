"""Rig and bank selection: configurations, simulated device and an independent model of commands and displays (K05-K09)."""
from . import env, rig as rigm, kdev
from .runner import Violation, check, eq

KA = "pyswitch.clients.kemper.actions."
BANK_COLORS = [(0, 0, 255), (255, 255, 0), (255, 0, 0), (100, 255, 100), (180, 0, 120)]
COLS = [(255, 255, 255), (10, 200, 90), (250, 0, 0), (100, 100, 100), (3, 130, 255)]
CUR, TGT = 10, 20


def dim(c, f):
    return tuple(int(x * f) for x in c)


def near(a, b):
    return a is not None and all(abs(x - y) <= 1 for x, y in zip(a, b))


class A:
    """An action with its configuration"""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join("%s=%r" % (k, v) for k, v in sorted(self.cfg.items())))


class Sel:
    def __init__(self, rng, rec, kinds, pages=False, encoder=False, name=True, npos=(2, 5), preselect=0.5):
        self.rng, self.rec = rng, rec
        W = self.W = env.World()
        self.BC = W.get("pyswitch.clients.kemper:BANK_COLORS")
        eq([tuple(c) for c in self.BC], BANK_COLORS, "bank colours")
        self.white = (255, 255, 255)
        self.cfg = {"updateInterval": rng.choice([50, 100, 200])}
        self.D = {"on": 0.3, "off": 0.02}
        self.DD = {"on": 1, "off": 0.2}
        if rng.random() < 0.5:
            self.D = {"on": rng.choice([0.5, 1]), "off": rng.choice([0, 0.1])}
            self.DD = {"on": rng.choice([0.9, 1]), "off": rng.choice([0.5, 0.1])}
            self.cfg.update(ledBrightnessOn=self.D["on"], ledBrightnessOff=self.D["off"], displayDimFactorOn=self.DD["on"], displayDimFactorOff=self.DD["off"])
        self.rig = None          # rig known to the controller
        self.sel = None          # value of the bank select parameter (follows the device; the bank encoder works on it)
        self.presel = None
        self.owner = None
        self.page = None
        self.acts, inputs, labels, led = [], [], [], 0
        self.pager = None
        if pages:
            P = W.get("pyswitch.clients.local.actions.pager:PagerAction")
            self.pager = P(pages=[{"id": 1, "color": (1, 2, 3), "text": "1"}, {"id": 2, "color": (3, 2, 1), "text": "2"}], use_leds=False)
            self.page = 1
        for pos in range(rng.randint(*npos)):
            label = rigm.label(W, back=(9, 9, 9)) if rng.random() < 0.8 else None
            if label:
                labels.append(label)
            n = rng.choice([0, 1, 3, 3])
            m = rigm.SwModel()
            inp = {"assignment": {"model": m, "pixels": tuple(range(led, led + n))} if n else {"model": m}, "actions": []}
            for pid in ([1, 2] if pages and rng.random() < 0.7 else [None]):
                kind = rng.choice(kinds)
                a = self.action(kind, label, pid, preselect)
                a.model, a.pix, a.label, a.pid = m, list(range(led, led + n)), label, pid
                a.sent = None
                self.acts.append(a)
                inp["actions"].append(a.obj)
            led += n
            inputs.append(inp)
        if pages:
            self.pm = rigm.SwModel()
            inputs.append({"assignment": {"model": self.pm}, "actions": [self.pager]})
        self.enc = None
        if encoder:
            self.enc = rigm.EncModel()
            prev = rigm.label(W, back=(8, 8, 8)) if rng.random() < 0.5 else None
            if prev:
                labels.append(prev)
            E = W.get(KA + "bank_select_encoder:ENCODER_BANK_SELECT")
            inputs.insert(rng.randrange(len(inputs) + 1), {"assignment": {"model": self.enc}, "actions": [E(preview_display=prev, step_width=1)]})
        self.namelabel = None
        if name and rng.random() < 0.7:
            lab = rigm.label(W, back=(7, 7, 7))
            self.named = rng.choice(["name", "id", "both"])
            lab.callback = None
            cb = W.get("pyswitch.clients.kemper:KemperRigNameCallback")(show_name=self.named != "id", show_rig_id=self.named != "name")
            el = W.imp("pyswitch.ui.elements")
            ui = W.imp("pyswitch.ui.ui")
            self.namelabel = el.DisplayLabel(layout={"font": "/fonts/H20.pcf", "backColor": (7, 7, 7)}, bounds=ui.DisplayBounds(0, 0, 120, 40), callback=cb)
            labels.append(self.namelabel)
        self.R = rigm.Rig(W, inputs=inputs, labels=labels, config=self.cfg)
        self.dev = kdev.Device(W, rng.random(), self.R.inport, self.R.port, rig=rng.randrange(625))
        self.dev.lease_until = self.dev.next_sense = 10 ** 12
        self.dev.quiet_same = rng.random() < 0.5
        if rng.random() < 0.4:
            # all rigs have the same name
            c = self.dev.content
            self.dev.content = lambda r: (c(r)[0], {**c(r)[1], 1: "Same"})
            self.dev.load(self.dev.rig)
            self.R.inport.inbuf.clear()
        self.dt = rng.choice([5, 10, 20])
        report = self.dev.report_rig

        def report_rig():
            self.reported = True
            report()
        self.dev.report_rig = report_rig

    # ------------------------------------------------------------------ configuration
    def looks(self, cfg, text="Tx"):
        r = self.rng
        if r.random() < 0.25:
            cfg["color"] = r.choice(COLS)
        if r.random() < 0.25:
            off = r.randrange(200)
            cfg["color_callback"] = lambda action, bank, rg, o=off: ((bank * 2 + o) % 256, rg * 50, 200)
        if r.random() < 0.3:
            cfg["text"] = text
        if r.random() < 0.3:
            cfg["text_callback"] = lambda action, bank, rg: "c%d.%d" % (bank, rg)
        cfg["display_mode"] = r.choice([CUR, TGT])

    def action(self, kind, label, pid, preselect):
        r, W = self.rng, self.W
        cfg = {}
        common = {"display": label}
        if pid is not None:
            common.update(id=pid, enable_callback=self.pager.enable_callback)
        if kind == "rig_select":
            cfg["rig"] = r.choice([1, 2, 3, 4, 5, None])
            if cfg["rig"] is not None:
                k = r.random()
                if k < 0.4:
                    cfg["rig_off"] = r.choice([1, 2, 5, "auto", "auto"])
                if r.random() < 0.5:
                    cfg["bank"] = r.choice([1, 2, 3, 60, 125])
                    if cfg.get("rig_off") is not None or r.random() < 0.3:
                        cfg["bank_off"] = r.choice([1, 2, 7, 125, "auto"])
                if cfg.get("rig_off") == "auto" and r.random() < 0.3:
                    cfg["auto_exclude_rigs"] = r.choice([(1,), [2, 3], (4, 5)])
            self.looks(cfg)
            obj = W.get(KA + "rig_select:RIG_SELECT")(**cfg, **common)
            a = A(kind=kind, cfg=cfg, obj=obj)
            a.rig_off = 1 if cfg.get("rig_off") == "auto" else cfg.get("rig_off")
            a.bank_off = 1 if cfg.get("bank_off") == "auto" else cfg.get("bank_off")
            a.last = None
            return a
        if kind == "bank_select":
            cfg["bank"] = r.choice([1, 2, 3, 60, 125])
            cfg["preselect"] = r.random() < preselect
            if r.random() < 0.5:
                cfg["bank_off"] = r.choice([1, 2, 7, 125])
            self.looks(cfg)
            return A(kind=kind, cfg=cfg, obj=W.get(KA + "bank_select:BANK_SELECT")(**cfg, **common))
        if kind in ("bank_up", "bank_down"):
            self.looks(cfg)
            cfg["preselect"] = r.random() < preselect
            if cfg["preselect"] and r.random() < 0.4:
                cfg["max_bank"] = r.choice([1, 2, 10, 125])
            for k in ("dim_factor", "led_brightness"):
                if r.random() < 0.5:
                    cfg[k] = r.choice(["on", "off", 0.6])
            return A(kind=kind, cfg=cfg, up=1 if kind == "bank_up" else -1, obj=W.get(KA + "bank_up_down:" + kind.upper())(**cfg, **common))
        if kind in ("rig_up", "rig_down"):
            self.looks(cfg)
            if r.random() < 0.6:
                cfg["keep_bank"] = r.random() < 0.4
            return A(kind=kind, cfg=cfg, up=1 if kind == "rig_up" else -1, obj=W.get(KA + "rig_up_down:" + kind.upper())(**cfg, **common))
        raise ValueError(kind)

    # ------------------------------------------------------------------ model
    def enabled(self, a):
        return a.pid is None or a.pid == self.page

    def state(self, a):
        """is the device at the place this action selects?"""
        if self.rig is None:
            return False
        if a.kind == "rig_select":
            if a.cfg["rig"] is None:
                return False
            return a.cfg["rig"] - 1 == self.rig % 5 and (a.cfg.get("bank") is None or a.cfg["bank"] - 1 == self.rig // 5)
        return self.sel // 5 == a.cfg["bank"] - 1

    def next_rig(self, a):
        b, g = divmod(self.rig, 5)
        if a.cfg.get("keep_bank", True):
            return b * 5 + min(4, max(0, g + a.up))
        return (self.rig + a.up) % 625

    def next_bank(self, a, bank):
        return (bank + a.up) % (a.cfg.get("max_bank") or 125)

    def place(self, a):
        """Where a push of this rig select leads: (bank, rig), both starting from 0"""
        b, g = divmod(self.rig, 5)
        c = a.cfg
        on = self.state(a)
        if c.get("bank") is not None:
            b = (a.bank_off if on and a.bank_off is not None else c["bank"]) - 1
        if on and a.rig_off is not None:
            g = a.rig_off - 1
        elif c["rig"] is not None:
            g = c["rig"] - 1
        return b, g

    def remember(self):
        """automatic alternatives: the last place which was not the selected one (of the enabled actions)"""
        for a in self.acts:
            if a.kind != "rig_select" or self.rig is None or not self.enabled(a) or a.last == self.rig:
                continue
            a.last = self.rig
            if self.state(a) or a.cfg["rig"] is None:
                continue
            if a.cfg.get("rig_off") == "auto":
                if self.rig % 5 + 1 in a.cfg.get("auto_exclude_rigs", ()):
                    continue
                a.rig_off = self.rig % 5 + 1
                self.rec.n("auto_remembered")
            if a.cfg.get("bank_off") == "auto":
                a.bank_off = self.rig // 5 + 1

    def push(self, a):
        c = a.cfg
        if a.kind == "rig_select":
            out = []
            on = self.state(a)
            if self.presel is None and c.get("bank") is not None:
                out.append((47, (a.bank_off if on and a.bank_off is not None else c["bank"]) - 1))
            if on and a.rig_off is not None and self.presel is None:
                a.sent = a.rig_off
            elif c["rig"] is not None:
                a.sent = c["rig"]
            elif self.rig is not None:
                a.sent = self.rig % 5 + 1
            else:
                a.sent = None
            if a.sent:
                out.append((49 + a.sent, 1))
            if self.presel is not None:
                self.rec.n("preselection_taken")
            self.presel = None
            return out
        if a.kind == "bank_select":
            if self.rig is None:
                return []
            cb = self.sel // 5
            if c["preselect"]:
                if self.presel is not None or cb != c["bank"] - 1:
                    self.preselect(c["bank"] - 1, a)
                return [(47, c["bank"] - 1)]
            a.sent = self.sel % 5 + 1
            self.presel = None
            return [(47, (c["bank_off"] if "bank_off" in c and cb == c["bank"] - 1 else c["bank"]) - 1), (49 + a.sent, 1)]
        if a.kind in ("bank_up", "bank_down"):
            if not c["preselect"]:
                return [(48 if a.up > 0 else 49, 0)]
            if self.rig is None:
                return []
            self.preselect(self.next_bank(a, self.sel // 5 if self.presel is None else self.presel), a)
            return [(47, self.presel)]
        if self.rig is None:
            return []
        n = self.next_rig(a)
        if n == self.rig:
            return []
        out = []
        if n // 5 != self.rig // 5:
            out.append((47, n // 5))
        a.sent = n % 5 + 1
        if self.presel is not None:
            self.rec.n("preselection_taken")
        self.presel = None
        return out + [(49 + a.sent, 1)]

    def preselect(self, bank, owner):
        self.presel, self.owner = bank, owner
        self.rec.n("preselections")

    def release(self, a):
        s, a.sent = a.sent, None
        return [(49 + s, 0)] if s else []

    # ------------------------------------------------------------------ running
    def cmds(self):
        out = [(e[2], e[3]) if e[1] == "cc" else e[1:] for e in self.dev.log]
        self.dev.log.clear()
        return out

    def tick(self, dt=None):
        self.W.clock.advance(self.dt if dt is None else dt)
        self.dev.update()
        self.R.c.tick()

    def settle(self, ms=None):
        ms = ms if ms is not None else 3 * self.cfg["updateInterval"] + 60
        t = 0
        while t < ms:
            self.tick()
            t += self.dt
        got = self.cmds()
        eq(got, [], "commands sent without user input")

    def took(self):
        """the controller got what the device reported"""
        if self.reported:
            self.reported = False
            self.rig = self.sel = self.dev.rig
            self.remember()

    reported = False
    turned = False      # the encoder took part in the current preselection

    def start(self):
        rng = self.rng
        self.settle()
        self.verify("before the rig is known")
        if rng.random() < 0.3:
            self.press(rng.choice([a for a in self.acts if not (a.kind == "rig_select" and a.cfg["rig"] is None) and not (a.kind in ("bank_up", "bank_down") and not a.cfg["preselect"])] or [None]))
        self.dev.report_rig()
        self.took()
        self.settle()
        self.verify("after the first report")

    def press(self, a):
        if a is None or not self.enabled(a):
            return
        rec = self.rec
        rec.n("presses_" + a.kind)
        before = self.rig
        rig0 = self.dev.rig
        want = self.push(a)
        self.turned &= self.presel is not None
        a.model.down = True
        self.tick(1)
        eq(self.cmds(), want, "commands of pushing %r with the device at %s" % (a, at(before)))
        if self.dev.rig != rig0:
                rec.n("rig_changes_by_user")
        if self.rng.random() < 0.5:
            self.took()
            self.settle(self.rng.choice([20, 700]))
            if self.rng.random() < 0.3:
                # the device goes somewhere else by itself while the switch is held
                self.device_change()
                rec.n("device_changes_while_held")
            want = self.release(a)
        else:
            want = self.release(a)
        a.model.down = False
        self.tick(1)
        eq(self.cmds(), want, "commands of releasing %r with the device at %s" % (a, at(before)))
        self.took()
        self.settle(self.rng.choice([10, None]))
        rec.ev(self.W.clock.ms, repr(a)[:60], before, self.rig, self.presel)

    def device_change(self):
        rng = self.rng
        b, g = divmod(self.dev.rig, 5)
        n = rng.choice([rng.randrange(625), rng.randrange(625), b * 5 + rng.randrange(5), (self.dev.rig + rng.choice([-1, 1, 5, -5])) % 625, 0, 624])
        for a in self.acts:
            if a.kind in ("rig_select", "bank_select") and rng.random() < 0.3:
                n = ((a.cfg.get("bank") or b + 1) - 1) * 5 + (a.cfg.get("rig") or g + 1) - 1
        self.dev.load(n)
        self.rec.n("device_changes")
        self.took()
        self.settle()
        self.rec.ev(self.W.clock.ms, "device", self.rig)

    def turn(self, d):
        b = self.sel // 5
        v = max(0, min(124, b + d))
        self.enc.p += d
        self.tick(1)
        if v != b:
            self.turned = True
            self.preselect(v, self.enc)
            self.sel = v * 5 + self.sel % 5
            want = [(47, v)]
        else:
            want = []
        eq(self.cmds(), want, "commands of turning the bank encoder by %d in bank %d" % (d, b + 1))
        self.rec.n("turns")
        self.rec.ev(self.W.clock.ms, "turn", d, self.presel)

    def next_page(self):
        self.pm.down = True
        self.tick(1)
        self.page = 3 - self.page
        self.pm.down = False
        self.tick(1)
        self.remember()
        self.settle()
        self.rec.n("page_changes")

    # ------------------------------------------------------------------ displays
    def expect(self, a):
        """(LED colour, LED brightness or "blink" pair, label colour or pair, text)"""
        c = a.cfg
        D, DD = self.D, self.DD
        if a.kind in ("rig_select", "bank_select"):
            if self.rig is None:
                return self.white, D["off"], dim(self.white, DD["off"]), ""
            val = self.rig if a.kind == "rig_select" else self.sel
            b, g = divmod(val, 5)
            on = self.state(a)
            tgt = c["display_mode"] == TGT
            if a.kind == "rig_select":
                pb, pg = self.place(a)
                if self.presel is not None:
                    pb, pg = self.presel, c["rig"] - 1 if c["rig"] is not None else g
                sb, sg = (pb, pg) if tgt else (b, g)
                color = c.get("color") or (c["color_callback"](None, b, g) if "color_callback" in c else BANK_COLORS[sb % 5])
                text = c["text_callback"](None, sb, sg) if "text_callback" in c else c["text"] if "text" in c else "Rig %d-%d" % (sb + 1, sg + 1)
                if self.presel is not None:
                    return color, (D["on"], D["off"]), dim(color, DD["off"]), text
                return color, D["on" if tgt and on else "off"], color if tgt and on else dim(color, DD["off"]), text
            off = c.get("bank_off") if not c["preselect"] else None
            mine = c["preselect"] and self.presel == c["bank"] - 1
            cb = off - 1 if on and off is not None else c["bank"] - 1
            color = c.get("color") or (c["color_callback"](None, b, g) if "color_callback" in c else BANK_COLORS[(cb if tgt else b) % 5])
            sb = cb if tgt else b
            text = c["text"] if "text" in c else c["text_callback"](None, sb, g) if "text_callback" in c else "Bank %d" % (sb + 1)
            if mine and tgt:
                return color, (D["on"], D["off"]), (color, dim(color, DD["off"])), text
            return color, D["on" if tgt and on else "off"], color if tgt and on else dim(color, DD["off"]), text
        if a.kind in ("bank_up", "bank_down"):
            df, lb = c.get("dim_factor", "off"), c.get("led_brightness", "off")
            df = DD[df] if isinstance(df, str) else df
            lo = D["on" if lb == "off" else "off"] if isinstance(lb, str) else lb * 0.1
            lb = D[lb] if isinstance(lb, str) else lb
            text = c.get("text", "Bank up" if a.up > 0 else "Bank dn")
            if self.rig is None:
                return self.white, lb, dim(self.white, df), text
            b, g = divmod(self.sel if c["preselect"] else self.rig, 5)
            t = self.next_bank(a, b if self.presel is None else self.presel)
            sb = t if c["display_mode"] == TGT else b
            color = c["color_callback"](None, b, g) if "color_callback" in c else c.get("color") or BANK_COLORS[sb % 5]
            if "text_callback" in c:
                text = c["text_callback"](None, sb, g)
            if c["preselect"] and self.presel is not None and self.owner is a:
                return color, (lb, lo), dim(color, df), text
            return color, lb, dim(color, df), text
        # rig up/down
        lb = D["on"]
        if self.rig is None:
            return self.white, lb, (50, 50, 50), ""
        n = self.next_rig(a)
        b, g = divmod(n if c["display_mode"] == TGT else self.rig, 5)
        color = c.get("color") or (c["color_callback"](None, *divmod(self.rig, 5)) if "color_callback" in c else BANK_COLORS[b % 5])
        return color, lb, color, c["text_callback"](None, b, g) if "text_callback" in c else c.get("text") or "Rig %d-%d" % (b + 1, g + 1)

    def skip(self, a):
        # while the bank encoder has a bank preselected, the bank displays work on that bank
        return a.kind in ("bank_select", "bank_up", "bank_down") and (self.sel != self.rig or self.presel is not None and self.turned)

    def verify(self, why):
        leds = self.R.leds
        for a in self.acts:
            if not self.enabled(a) or self.skip(a):
                continue
            self.rec.n("display_checks")
            col, br, back, text = self.expect(a)
            w = "%s: %r, device at %s, preselected bank %r: " % (why, a, at(self.rig), self.presel if self.presel is None else self.presel + 1)
            brs = br if isinstance(br, tuple) else (br,)
            for p in a.pix:
                check(any(near(leds[p], dim(col, x)) for x in brs), lambda: w + "LED shows %r, expected %r at brightness %r" % (leds[p], col, br))
            if a.label:
                eq(a.label.text, text, w + "text")
                backs = back if isinstance(back[0], tuple) else (back,)
                check(any(near(a.label.back_color, x) for x in backs), lambda: w + "label colour %r, expected %r" % (a.label.back_color, back))
        if self.namelabel:
            if self.presel is not None:
                want = "Bank %d" % (self.presel + 1)
            elif self.named == "id":
                want = "" if self.rig is None else "%d-%d" % (self.rig // 5 + 1, self.rig % 5 + 1)
            else:
                name = self.dev.str[1]
                want = name if self.named == "name" or self.rig is None else "%d-%d %s" % (self.rig // 5 + 1, self.rig % 5 + 1, name)
            eq(self.namelabel.text, want, "%s: rig name display" % why)

    def watch_blink(self, ms=2600):
        """LEDs which have to blink do so evenly for the time given; all others keep still"""
        ups = self.cfg["updateInterval"]
        blink, still = [], []
        for a in self.acts:
            if self.enabled(a) and a.pix and not self.skip(a):
                e = self.expect(a)
                if isinstance(e[1], tuple):
                    if not near(dim(e[0], e[1][0]), dim(e[0], e[1][1])):
                        blink.append((a, a.pix[0]))
                else:
                    still.append((a, a.pix[0]))
            elif self.enabled(a) and a.pix and a.kind in ("bank_up", "bank_down") and self.turned and self.owner is not a:
                # the encoder took over
                still.append((a, a.pix[0]))
                self.rec.n("taken_over")
        last = {p: self.R.leds[p] for _, p in blink + still}
        flips = {p: [] for _, p in blink}
        t = 0
        while t < ms:
            self.tick()
            t += self.dt
            leds = self.R.leds
            for a, p in still:
                eq(leds[p], last[p], "LED of %r which does not take part in blinking" % a)
            for a, p in blink:
                if leds[p] != last[p]:
                    flips[p].append(t)
                    last[p] = leds[p]
        eq(self.cmds(), [], "commands sent while a bank is preselected")
        tol = 2 * (ups + self.dt) + 2
        for a, p in blink:
            f = flips[p]
            gaps = [y - x for x, y in zip([0] + f, f + [ms])]
            check(len(f) >= 2 and max(gaps) <= 400 + tol, lambda: "%r does not keep blinking while bank %d is preselected (changes at %r ms)" % (a, self.presel + 1, f))
            check(all(g >= 400 - tol for g in gaps[1:-1]), lambda: "%r blinks irregularly while bank %d is preselected (changes at %r ms)" % (a, self.presel + 1, f))
            self.rec.n("blinks", len(f))
        self.verify("while blinking")


def at(r):
    return "?" if r is None else "%d-%d" % (r // 5 + 1, r % 5 + 1)
