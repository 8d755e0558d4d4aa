"""Keyboard actions: the key reports a host receives against the keys configured."""
from vlib import env, rig
from vlib.runner import check, eq

ID = "L02"
RULE = ("A case is 1-5 switches mixing keyboard actions (single codes, lists and tuples of up to 9 codes incl. modifiers) with custom messages, in normal and hold position, optionally disabled, pressed alone or overlapping, "
        "short and long, with and without a connected USB host and with MIDI traffic. The stand-in keyboard keeps what the host sees (keys going down and up). Signature = configuration and history.")
CASES = {"quick": 3000, "thorough": 50000}
FLOORS = {"presses": 7000, "keys": 7000, "multi_key": 1200, "holds": 500, "overlaps": 400, "no_host": 400, "other_messages": 2000, "display_checks": 15000, "disabled": 100}
LEVEL_NOTE = "Exploration: exact comparison of the keys the host sees go down and up, of the MIDI bytes sent, LEDs and labels with an independent model, per press."


def near(a, b):
    return all(abs(x - y) <= 1 for x, y in zip(a, b))


class En:
    def __init__(self):
        self.on = True

    def init(self, appl):
        pass

    def enabled(self, action):
        return self.on


class It:
    pass


def run_case(rng, rec, tier):
    W = env.World()
    r = rng
    HID = W.get("pyswitch.clients.local.actions.hid:HID_KEYBOARD")
    CUST = W.get("pyswitch.clients.local.actions.custom:CUSTOM_MESSAGE")
    KC = W.get("adafruit_hid.keycode:Keycode")
    codes = sorted({v for k, v in vars(KC).items() if isinstance(v, int)})
    col = lambda: (r.randrange(256), r.randrange(256), r.randrange(256))
    switches, labels = [], []
    for s in range(r.randint(1, 5)):
        S = It()
        S.m, S.hold, S.items = rig.SwModel(), r.random() < 0.35, []
        for where in ("actions", "actionsHold"):
            if where == "actionsHold" and not S.hold:
                continue
            for x in range(r.choice([1, 1, 2, 3])):
                it = It()
                it.s, it.onhold = S, where == "actionsHold"
                it.en = En() if r.random() < 0.25 else None
                if r.random() < 0.7:
                    it.kind = "hid"
                    k = r.choice([1, 1, 2, 3, 9])
                    it.codes = [r.choice(codes) for _ in range(k)]
                    it.label = rig.label(W, back=(1, 2, 3), text="init") if r.random() < 0.6 else None
                    it.leds = not it.onhold and r.random() < 0.8 and not any(o.leds for o in S.items)
                    kw = {"keycodes": it.codes[0] if k == 1 and r.random() < 0.7 else tuple(it.codes) if r.random() < 0.5 else it.codes}
                    it.look, it.text, it.br = (100, 100, 255), "", 0.15
                    if r.random() < 0.6:
                        it.look = kw["color"] = col()
                    if r.random() < 0.6:
                        it.text = kw["text"] = r.choice(["Left", "A b", "\u00e4"])
                    if r.random() < 0.5:
                        it.br = kw["led_brightness"] = r.choice([0, 0.3, 1])
                    it.a = HID(display=it.label, use_leds=it.leds, enable_callback=it.en, **kw)
                    if it.label:
                        labels.append(it.label)
                else:
                    it.kind, it.leds, it.label = "msg", False, None
                    it.msg, it.rel = rig.cc(r.randrange(128), r.randrange(128)), (rig.cc(r.randrange(128), r.randrange(128)) if r.random() < 0.5 else b"")
                    it.a = CUST(message=list(it.msg), message_release=list(it.rel) or None, use_leds=False, enable_callback=it.en)
                S.items.append(it)
        S.cfg = {"assignment": {"model": S.m, "pixels": tuple(range(3 * s, 3 * s + 3))}, "actions": [i.a for i in S.items if not i.onhold]}
        S.pix = range(3 * s, 3 * s + 3)
        if S.hold:
            S.cfg.update(actionsHold=[i.a for i in S.items if i.onhold], holdTimeMillis=600)
        switches.append(S)
    R = rig.Rig(W, inputs=[S.cfg for S in switches], labels=labels)
    hw = W.hw
    R.run(260)
    R.sent()
    hist = []

    def drain():
        k, hw.keys_log[:] = [c for _, w, c in hw.keys_log if w == "down"], []
        m = b"".join(b for _, b in R.port.out)
        R.port.out.clear()
        R._read = 0
        return k, m.hex()

    def active(S, hold):
        return [i for i in S.items if (i.onhold == hold or not S.hold) and not (i.en and not i.en.on)]

    def expect(items, push=True, release=True):
        keys, msgs = [], b""
        for i in items:
            if i.kind == "hid":
                if push and not hw.kbd_fault:
                    keys += i.codes
            else:
                msgs += (i.msg if push else b"") + (i.rel if release else b"")
        if push:
            rec.n("keys", len(keys))
            rec.n("multi_key", sum(i.kind == "hid" and len(i.codes) > 1 for i in items))
            rec.n("other_messages", sum(i.kind == "msg" for i in items))
            rec.n("no_host", int(hw.kbd_fault))
            rec.n("disabled", sum(i.en is not None and not i.en.on for i in items[0].s.items) if items else 0)
        return keys, msgs.hex()

    def step(S, down, t, ):
        S.m.down = down
        R.tick(t)
        return drain()

    def down(S):
        rec.n("presses")
        got = step(S, True, r.choice([1, 20]))
        S.t = W.clock.ms
        eq(got, ([], "") if S.hold else expect(active(S, False), True, False), "keys and messages when pressed, %r" % hist[-1:])
        S.fired = False

    def wait(ms, pressed):
        """Time passes while switches are held: hold actions fire after the hold time"""
        end = W.clock.ms + ms
        while W.clock.ms < end:
            R.tick(20)
            got, want = drain(), ([], "")
            due = [S for S in pressed if S.hold and not S.fired and W.clock.ms > S.t + 600]
            maybe = [S for S in pressed if S.hold and not S.fired and S.t + 600 - 25 <= W.clock.ms and S not in due]
            if due:
                ks, ms_ = [], ""
                for S in sorted(due, key=switches.index):
                    k, m_ = expect(active(S, True))
                    ks, ms_ = ks + k, ms_ + m_
                    S.fired = True
                    rec.n("holds")
                want = (ks, ms_)
            elif maybe and got != want:
                want = expect(active(maybe[0], True))
                maybe[0].fired = True
                rec.n("holds")
            eq(got, want, "keys and messages while held, %r" % hist[-1:])

    def up(S):
        got = step(S, False, r.choice([1, 20]))
        if S.hold:
            want = ([], "") if S.fired else expect(active(S, False))
        else:
            want = expect(active(S, False), False, True)
        eq(got, want, "keys and messages when released, %r" % hist[-1:])
        check(not hw.keys_down, lambda: "keys stuck down: %r" % hw.keys_down)

    def verify():
        check(not hw.keys_down, lambda: "keys stuck down: %r" % hw.keys_down)
        for S in switches:
            for it in S.items:
                if it.en and not it.en.on or it.kind != "hid":
                    continue
                if it.leds:
                    want = tuple(int(c * it.br) for c in it.look)
                    for p in S.pix:
                        rec.n("display_checks")
                        check(near(R.leds[p], want), lambda: "LED %d shows %r, expected %r" % (p, R.leds[p], want))
                if it.label:
                    rec.n("display_checks")
                    eq((it.label.text, tuple(it.label.back_color)), (it.text, it.look), "label of a keyboard action")

    verify()
    for n in range(r.randint(3, 14)):
        k = r.random()
        if k < 0.7 or len(switches) == 1:
            S = r.choice(switches)
            ms = r.choice([0, 60, 300, 900, 2000])
            hist.append(("press", switches.index(S), ms))
            down(S)
            wait(ms, [S])
            up(S)
        elif k < 0.85:
            A, B = r.sample(switches, 2)
            t = [r.choice([0, 60, 300, 900]) for _ in range(3)]
            hist.append(("overlap", switches.index(A), switches.index(B), t))
            rec.n("overlaps")
            down(A)
            wait(t[0], [A])
            down(B)
            wait(t[1], [A, B])
            first, second = (A, B) if r.random() < 0.5 else (B, A)
            up(first)
            wait(t[2], [second])
            up(second)
        elif k < 0.9:
            hw.kbd_fault = not hw.kbd_fault
            hist.append(("host", not hw.kbd_fault))
        elif k < 0.95:
            e = [i.en for S in switches for i in S.items if i.en]
            if e:
                x = r.choice(e)
                x.on = not x.on
                hist.append(("enable", x.on))
        else:
            R.feed(rig.cc(1, 2) + rig.pc(3))
            hist.append("midi")
        R.run(r.choice([20, 260]))
        eq(drain(), ([], ""), "keys and messages without a press, %r" % hist[-1:])
        if hist and hist[-1][0] == "enable":
            R.run(260)
        verify()
        rec.ev(W.clock.ms, hist[-1:])
        rec.state(repr(hist[-1:])[:12])
    rec.sig((repr([[(i.kind, getattr(i, "codes", None), i.onhold) for i in S.items] for S in switches]), repr(hist)))
