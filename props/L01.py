"""Custom, rotating and Boomerang message actions: every message, text and colour against a step model."""
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "L01"
RULE = ("A case is 1-5 switches with custom message, rotating message (one or several LEDs, lists of different lengths, tuples or lists) and Boomerang actions in normal or hold position, some on pages, under a "
        "history of short and long presses, page changes and unrelated MIDI input. After each step the bytes written, LEDs and labels equal a model of the steps. Signature = configuration and history.")
CASES = {"quick": 3000, "thorough": 50000}
FLOORS = {"presses": 6000, "messages": 9000, "wraps": 1200, "display_checks": 60000, "holds": 800, "long_messages": 250, "boomerang": 1500, "disabled_presses": 500, "multi_led": 2500}
LEVEL_NOTE = "Exploration: exact comparison of written bytes, LEDs and labels of the real controller with an independent step model, after every step."

BOOM = {"PLAY_STOP_ALL": (17, 25, "PlayStp", (0, 255, 0)), "SYNC_SERIAL": (43, 65, "SyncSerial", (255, 255, 0)), "MUTE_THRU": (3, 8, "MuteThru", (180, 0, 120)), "PANIC": (11, 40, "PANIC", (255, 0, 0)),
        "ERASE": (16, 61, "ERASE", (255, 0, 0)), "ERASE_ALL": (28, 35, "ERASEALL", (255, 0, 0)), "STACK": (15, 23, "Stack", (255, 255, 0)), "COPY": (1, 4, "Copy", (0, 0, 255)),
        "FADE": (21, 32, "Fade", (100, 100, 255)), "OCTAVE": (2, 49, "Octave", (255, 255, 255)), "ONCE": (10, 18, "Once", (100, 255, 100)), "REVERSE": (47, 56, "Reverse", (64, 242, 208))}


def dim(c, f):
    return tuple(int(x * f) for x in c)


def near(a, b):
    return all(abs(x - y) <= 1 for x, y in zip(a, b))


class En:
    def __init__(self):
        self.on = True

    def init(self, appl):
        pass

    def enabled(self, action):
        return self.on


class It:
    pass


def message(r):
    k = r.randrange(8)
    d = lambda: r.randrange(128)
    if k == 0:
        return [0xB0 | r.randrange(16), d(), d()]
    if k == 1:
        return [0xC0 | r.randrange(16), d()]
    if k == 2:
        return [r.choice([0x80, 0x90, 0xA0, 0xE0]) | r.randrange(16), d(), d()]
    if k == 3:
        return [0xF0] + [d() for _ in range(r.choice([0, 1, 8, 40, 200]))] + [0xF7]
    if k == 4:
        return [r.choice([0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF])]
    if k == 5:
        return [0xD0 | r.randrange(16), d()]
    if k == 6:
        return [0xF0, 0, 0x20, 0x33, 2, 0x7f, 1, 0, d(), d(), d(), d(), 0xF7]
    return [0xB0, d(), d()] + [0xC0, d()]


def run_case(rng, rec, tier):
    W = env.World()
    r = rng
    col = lambda: (r.randrange(256), r.randrange(256), r.randrange(256))
    fm = lambda m: tuple(m) if r.random() < 0.3 else m
    inputs, items, labels, led = [], [], [], 0
    for s in range(r.randint(1, 5)):
        m = rig.SwModel()
        lists = {"actions": [], "actionsHold": []}
        mine = []
        hold = r.random() < 0.35
        for where in ("actions", "actionsHold"):
            if where == "actionsHold" and not hold:
                continue
            for x in range(r.choice([1, 1, 2]) if where == "actions" else 1):
                it = It()
                it.m, it.hold, it.switchhold = m, where == "actionsHold", hold
                it.kind = r.choice(["custom", "rotate", "rotate", "boom"])
                it.en = En() if r.random() < 0.3 else None
                it.label = rig.label(W, back=(1, 2, 3), text="init") if r.random() < 0.75 else None
                if it.label:
                    labels.append(it.label)
                it.leds = r.random() < 0.8 and where == "actions"
                it.step = 0
                it.fresh = True     # has drawn since the division of its switch's LEDs last changed
                kw = {"display": it.label, "use_leds": it.leds, "enable_callback": it.en}
                it.br = 0.15
                it.nl = 1
                if it.kind == "custom":
                    it.msgs, it.rel = [message(r)], ([message(r)] if r.random() < 0.4 else None)
                    kw["message"] = fm(it.msgs[0])
                    if it.rel:
                        kw["message_release"] = fm(it.rel[0])
                    it.texts, it.lc, it.dc = [""], [[(255, 255, 255)]], None
                    if r.random() < 0.7:
                        it.texts = [r.choice(["Foo", "A b", "\u00e4"])]
                        kw["text"] = it.texts[0]
                    if r.random() < 0.7:
                        it.lc = [[col()]]
                        kw["color"] = it.lc[0][0]
                    it.dc = [it.lc[0][0]]
                    if r.random() < 0.4:
                        it.br = kw["led_brightness"] = r.choice([0, 0.3, 1])
                    acts = [W.get("pyswitch.clients.local.actions.custom:CUSTOM_MESSAGE")(**kw)]
                elif it.kind == "rotate":
                    it.msgs = [message(r) for _ in range(r.choice([1, 2, 3, 5]))]
                    it.rel = [message(r) for _ in range(r.choice([1, 2, 4]))] if r.random() < 0.3 else None
                    kw["messages"] = fm([fm(x) for x in it.msgs])
                    if it.rel:
                        kw["messages_release"] = fm([fm(x) for x in it.rel])
                    it.nl = r.choice([1, 1, 2, 3])
                    it.lc = [[col() for _ in range(r.choice([1, 2, 3]))] for _ in range(it.nl)]
                    kw["num_leds"] = it.nl
                    if it.nl > 1:
                        kw["led_colors"] = fm([fm(x) for x in it.lc])
                    elif r.random() < 0.8:
                        kw["led_colors"] = fm(it.lc[0])
                    else:
                        it.lc = None
                    it.dc = it.lc[0] if it.lc else None
                    if r.random() < 0.4:
                        it.dc = [col() for _ in range(r.choice([1, 2, 4]))]
                        kw["display_colors"] = fm(it.dc)
                    it.texts = None
                    if r.random() < 0.8:
                        it.texts = ["T%d" % x for x in range(r.choice([1, 2, 3, 4]))]
                        kw["texts"] = fm(it.texts)
                    if r.random() < 0.4:
                        it.br = kw["led_brightness"] = r.choice([0, 0.3, 1])
                    a = W.get("pyswitch.clients.local.actions.rotate:ROTATING_MESSAGES")(**kw)
                    acts = a if isinstance(a, list) else [a]
                else:
                    n = r.choice(list(BOOM))
                    p1, p2, t, c = BOOM[n]
                    it.msgs, it.rel, it.texts = [[207, p1], [207, p2]], None, [t]
                    it.nl = kw["num_leds"] = r.choice([1, 1, 2, 3, 4])
                    b1, b2 = 0.3, 0.02
                    if r.random() < 0.3:
                        b1, b2 = kw["led_brightness_1"], kw["led_brightness_2"] = 0.9, 0.1
                    if r.random() < 0.3:
                        c = kw["color"] = col()
                    if r.random() < 0.3:
                        it.texts = ["Boo"]
                        kw["text"] = "Boo"
                    it.br = 1
                    it.dc = [c]
                    # one LED: alternating brightness; several: the bright one moves from the last to the first
                    it.lc = [[dim(c, b1), dim(c, b2)]] if it.nl == 1 else [[dim(c, b1 if j == it.nl - 1 - i else b2) for j in range(it.nl)] for i in range(it.nl)]
                    a = W.get("pyswitch.clients.boomerang.actions.boomerang:BOOMERANG_" + n)(**kw)
                    acts = a if isinstance(a, list) else [a]
                eq(len(acts), it.nl, "number of actions created")
                lists[where] += [acts] if r.random() < 0.5 else acts
                it.acts = acts
                mine.append(it)
        if not hold:
            del lists["actionsHold"]
        n = r.choice([0, 1, 2, 3, 3, 6])
        inp = {"assignment": {"model": m, "pixels": tuple(range(led, led + n))} if n else {"model": m}, **lists}
        if hold:
            inp["holdTimeMillis"] = 600
        inputs.append(inp)
        for it in mine:
            it.all = list(range(led, led + n))
        led += n
        items += mine
    en = [it.en for it in items if it.en]
    R = rig.Rig(W, inputs=inputs, labels=labels)
    R.run(60)
    R.sent()

    def pixels():
        """Division of the LEDs among the enabled LED actions, per switch: {pixel: (item, index of the item's LED)}"""
        ret = {}
        by = {}
        for it in items:
            if it.leds and (not it.en or it.en.on):
                by.setdefault(id(it.m), []).extend((it, k) for k in range(it.nl))
        for lst in by.values():
            pix = lst[0][0].all
            if not pix:
                continue
            if len(lst) == 1:
                seg = [pix]
            elif len(lst) < len(pix):
                seg = [pix[:len(pix) - len(lst) + 1]] + [[p] for p in pix[len(pix) - len(lst) + 1:]]
            else:
                seg = [[p] for p in pix]
            for (it, k), ps in zip(lst, seg):
                for p in ps:
                    ret[p] = (it, k)
        return ret

    seen = {}

    def verify(why):
        px = pixels()
        leds = R.leds
        for p, (it, k) in px.items():
            if it.lc is None or not it.fresh:
                continue
            rec.n("display_checks")
            want = dim(it.lc[k][it.step % len(it.lc[k])], it.br)
            check(near(leds[p], want), lambda: "%s: LED %d (action %s, step %d, its LED %d) shows %r, expected %r" % (why, p, it.kind, it.step, k, leds[p], want))
        for it in items:
            if not it.label:
                continue
            if it.en and not it.en.on:
                want = seen.get(id(it))     # keeps what it showed
                if want is None:
                    continue
            else:
                t = it.texts[it.step % len(it.texts)] if it.texts else "init"
                b = it.dc[it.step % len(it.dc)] if it.dc else (1, 2, 3)
                want = (t, b)
            rec.n("display_checks")
            eq((it.label.text, tuple(it.label.back_color)), want, "%s: label of %s action at step %d" % (why, it.kind, it.step))
            seen[id(it)] = want

    verify("after start")
    hist = []
    for step in range(r.randint(5, 25)):
        k = r.random()
        if k < 0.85:
            m = r.choice(items).m
            mine = [it for it in items if it.m is m]
            long = r.random() < 0.35
            rec.n("presses")
            hist.append(("press", inputs.index([i for i in inputs if i["assignment"]["model"] is m][0]), long))
            run = lambda ms: R.run(ms, r.choice([10, 20, 50]))
            press, release, both, drawn = [], [], [], []
            for it in mine:
                if it.en and not it.en.on:
                    rec.n("disabled_presses")
                    continue
                if it.switchhold and it.hold != long:
                    continue
                rec.n("holds", int(it.hold))
                pm = it.msgs[it.step % len(it.msgs)]
                rm = it.rel[it.step % len(it.rel)] if it.rel else None
                press.append(bytes(pm))
                if rm:
                    release.append(bytes(rm))
                both.append(bytes(pm) + bytes(rm or b""))
                it.step += 1
                drawn.append(it)
                rec.n("boomerang", int(it.kind == "boom"))
                rec.n("multi_led", int(it.nl > 1))
                rec.n("wraps", int(it.step % len(it.msgs) == 0 and len(it.msgs) > 1))
                rec.n("long_messages", int(len(pm) > 20))
                rec.n("messages", 1 + int(bool(rm)))
                rec.state((it.kind, it.nl, it.step % len(it.msgs), it.hold))
            m.down = True
            run(r.choice([700, 1500]) if long else r.choice([20, 100]))
            first = b"".join(b for _, b in R.port.out)
            R.port.out.clear()
            m.down = False
            run(20)
            second = b"".join(b for _, b in R.port.out)
            R.port.out.clear()
            R._read = 0
            for it in drawn:
                it.fresh = it.fresh or it.kind != "custom"
            if mine[0].switchhold:
                # of a switch with hold actions, hold actions fire (push and release) when the hold time passed, the others at the release of a short press
                want = b"".join(both).hex()
                eq((first.hex(), second.hex()), (want, "") if long else ("", want), "bytes sent (while down, at release) on a %s press of a switch with hold actions" % ("long" if long else "short"))
            else:
                eq((first.hex(), second.hex()), (b"".join(press).hex(), b"".join(release).hex()), "bytes sent at (press, release) in step %d" % len(hist))
        elif k < 0.92 and en:
            e = r.choice(en)
            e.on = not e.on
            tog = [it for it in items if it.en is e][0]
            for it in items:
                if it.m is tog.m:
                    it.fresh = it is tog and e.on
            hist.append(("enable", e.on))
            R.run(260)
        else:
            R.feed(r.choice([rig.cc(r.randrange(128), r.randrange(128)), rig.pc(5), b"\x90\x40\x40", rig.sysex(b"\x00\x20\x33", b"\0\0\1\0\4\1\3\4")]))
            hist.append("midi")
            R.run(60)
            eq(len(R.port.out), 0, "messages sent because of MIDI input")
        R.run(r.choice([10, 250]))
        eq(b"".join(b for _, b in R.port.out), b"", "bytes sent without a press")
        verify("after %r" % hist[-3:])
        rec.ev(W.clock.ms, hist[-1])
    rec.sig((repr([(i.kind, i.nl, i.msgs, i.rel) for i in items]), repr(hist)))
