"""The tuner display shows the device's note and deviation exactly; strobe."""
from vlib import env, rig, kdev
from vlib.runner import Violation, check, eq

ID = "K12"
RULE = ("Tuner displays of all kinds (in the tuner splash with all options, custom ones, permanent ones, only note or only deviation) and strobe tuners with 2 to 10 switches get notes and deviations from a device "
        "in all orders and speeds, through several tuner sessions. Note text, label colour, marker position and colour are read from the screen and compared to the values sent; LEDs are compared to an "
        "independent model of the running light. Signature = options and values; non-trivial when values arrived.")
CASES = {"quick": 2400, "thorough": 40000}
FLOORS = {"note_checks": 2000, "marker_checks": 2000, "in_tune": 800, "out_of_tune": 900, "extreme_values": 900, "strobe_frames": 4000, "strobe_moved": 3000, "leds_back": 400, "idle_deviations": 400}
LEVEL_NOTE = ("Exploration: screen elements and LED values of the running controller compared to the definition of note name, marker position, tuning window and running light.")
NOTES = ["C", "Db", "D", "Eb", "E", "F", "Gb", "G", "Ab", "A", "Bb", "B"]


def run_case(rng, rec, tier):
    if rng.random() < 0.55:
        display(rng, rec)
    else:
        strobe(rng, rec)


def clamp(v, lo, hi):
    return max(lo, min(hi, v))


def values(rng, low, high):
    return clamp(rng.choice([rng.randrange(16384), rng.randrange(16384), 0, 16383, 8192, 8191, 8193, low, low - 1, high, high + 1, 8192 + rng.randint(-500, 500), 8192 + rng.randint(-4000, 4000)]), 0, 16383)


def display(rng, rec):
    W = env.World()
    km = W.imp("pyswitch.clients.kemper")
    el, ui = W.imp("pyswitch.ui.elements"), W.imp("pyswitch.ui.ui")
    KM = km.KemperMappings
    cin, cout, cneu = (255, 255, 255), (255, 255, 255), (255, 255, 255)
    C = W.get("pyswitch.colors:Colors")
    kw, cal = {}, {}
    cin, cout, cneu = C.LIGHT_GREEN, C.ORANGE, C.WHITE
    if rng.random() < 0.5:
        cin, cout, cneu = (1, 200, 3), (200, 5, 6), (70, 80, 90)
        kw.update(color_in_tune=cin, color_out_of_tune=cout, color_neutral=cneu)
    low, high = 8192 - 350, 8192 + 350
    if rng.random() < 0.5:
        low, high = 8192 - rng.choice([0, 10, 800, 8192]), 8192 + rng.choice([0, 10, 900, 8191])
        kw.update(calibration_low=low, calibration_high=high)
    names = NOTES
    if rng.random() < 0.4:
        names = ["n%d" % i for i in range(12)]
        kw.update(note_names=rng.choice([tuple, list])(names))
    kind = rng.choice(["splash", "splash", "custom", "permanent"])
    bx, by, bw, bh = rng.choice([(0, 0, 240, 240), (0, 0, 240, 240), (rng.randint(1, 60), rng.randint(0, 60), rng.randint(40, 180), rng.randint(60, 180))])
    width, height, zoom, hasnote, hasdev = 5, 40, 2.4, True, True
    if kind != "splash":
        width, height, zoom = rng.choice([1, 3, 5, 10]), rng.choice([5, 20, 40]), rng.choice([2.4, 1, 1, 0.5, 3, 10, 100])
        hasnote = rng.random() < 0.85
        hasdev = not hasnote or rng.random() < 0.85
        tuner = el.TunerDisplay(mapping_note=KM.TUNER_NOTE() if hasnote else None, mapping_deviance=KM.TUNER_DEVIANCE() if hasdev else None, bounds=ui.DisplayBounds(bx, by, bw, bh),
                                layout={"font": "/fonts/A.pcf", "text": ""}, scale=rng.choice([1, 3]), deviance_height=height, deviance_width=width, deviance_zoom=zoom, **kw)
    other = rig.label(W, text="Main")
    if kind == "permanent":
        root = ui.DisplayElement(bounds=ui.DisplayBounds(0, 0, 240, 240), children=[other, tuner])
        splash = None
        if rng.random() < 0.5:
            splash = km.TunerDisplayCallback(splash_default=root)
    else:
        root = ui.DisplayElement(bounds=ui.DisplayBounds(0, 0, 240, 240) if kind == "custom" else ui.DisplayBounds(bx, by, bw, bh), children=[other])
        if kind == "custom":
            splash = km.TunerDisplayCallback(splash_default=root, splash_tuner=tuner)
        else:
            splash = km.TunerDisplayCallback(splash_default=root, **kw)
            tuner = next((v for v in vars(splash).values() if isinstance(v, el.TunerDisplay)), None)
    if splash is None:
        splash = W.get("pyswitch.clients.local.callbacks.splashes:SplashesCallback")(root)
    R = rig.Rig(W, inputs=[{"assignment": {"model": rig.SwModel(), "pixels": (0, 1)}, "actions": []}], splash=splash, config={"updateInterval": rng.choice([50, 200])},
                protocol=km.KemperBidirectionalProtocol(30))
    dev = kdev.Device(W, rng.random(), R.inport, R.port, rig=3)
    dev.num[(0x7f, 0x7e)] = 0

    def run(ms):
        t = 0
        while t < ms:
            W.clock.advance(5)
            t += 5
            dev.update()
            R.c.tick()

    run(700)
    main = R.display.root
    note = dv = None
    touched = False     # a deviation different from the neutral one has been received
    hist = []
    shown = kind == "permanent"
    for step in range(rng.randint(5, 25)):
        k = rng.random()
        if step == 0 and kind != "permanent" or (k < 0.08 and type(splash).__name__.startswith("Tuner")):
            on = dev.num[(0x7f, 0x7e)] != 1
            dev.set_tuner(1 if on else 0)
            run(30)
            if kind == "permanent":
                shown = not on          # the tuner splash is shown instead
            else:
                shown = on
                check((R.display.root is main) != on, lambda: "tuner screen shown: %r, tuner mode %r" % (R.display.root is not main, on))
            hist.append(("tuner", on))
        elif k < 0.55 and (dev.num[(0x7f, 0x7e)] == 1 or kind == "permanent"):
            for _ in range(rng.choice([1, 1, 3])):
                dv = values(rng, low, high) if rng.random() < 0.9 or dv is None else dv
                dev.num[(0x7c, 0x0f)] = dv
                dev.report((0x7c, 0x0f))
                touched |= dv != 8192
            run(rng.choice([5, 30]))
            hist.append(("dev", dv))
        elif dev.num[(0x7f, 0x7e)] == 1 or kind == "permanent":
            note = rng.randrange(128) if rng.random() < 0.9 or note is None else note
            dev.num[(0x7d, 0x54)] = note
            dev.report((0x7d, 0x54))
            run(rng.choice([5, 30]))
            hist.append(("note", note))
        if not shown:
            continue
        run(10)
        look(R, rec, hist, note, dv, touched, (bx, by, bw, bh), width, height, zoom, hasnote, hasdev, names, low, high, cin, cout, cneu, other if kind == "permanent" else None)
        rec.ev(W.clock.ms, hist[-1] if hist else None)
    rec.sig((kind, bx, by, bw, bh, width, height, zoom, low, high, repr(hist)))


def look(R, rec, hist, note, dv, touched, b, width, height, zoom, hasnote, hasdev, names, low, high, cin, cout, cneu, other):
    bx, by, bw, bh = b
    els = rig.find_screen(R.display.root)
    texts = [(x, y, e) for x, y, e in els if hasattr(e, "text") and not (other and e.text == "Main")]
    rects = [(x + e.x, y + e.y, e) for x, y, e in els if hasattr(e, "fill") and not hasattr(e, "text") and e.width == width and e.height == height]
    h = "after %r: " % hist[-5:]
    ins = dv is not None and low <= dv <= high
    if hasnote:
        check(len(texts) == 1, lambda: h + "%d labels on the tuner screen" % len(texts))
        lab = texts[0][2]
        if note is not None:
            rec.n("note_checks")
            eq(lab.text, names[note % 12], h + "note shown")
        if dv is not None and touched and hasdev:
            eq(lab.color, cin if ins else cout, h + "note colour at deviation %d (window %d..%d)" % (dv, low, high))
    if hasdev:
        check(len(rects) == 2, lambda: h + "%d markers on the tuner screen" % len(rects))
        (ix, iy, ie), (mx, my, me) = rects
        mid = bx + (bw - width) / 2
        check(abs(ix - mid) <= 1 and iy == by + bh - height and ie.fill == cneu, lambda: h + "in tune mark at %r, colour %r, expected in the middle (%r) with colour %r" % ((ix, iy), ie.fill, mid, cneu))
        eq(my, by + bh - height, h + "vertical position of the marker")
        check(bx <= mx <= bx + bw - width, lambda: h + "marker at x %d is outside of the display (%d..%d)" % (mx, bx, bx + bw - width))
        if dv is not None:
            rec.n("marker_checks")
            rec.n("in_tune" if ins else "out_of_tune")
            if dv in (0, 16383, low, low - 1, high, high + 1):
                rec.n("extreme_values")
            want = bx + (bw - width) * clamp(0.5 + (dv - 8192) * zoom / 16384, 0, 1)
            check(abs(mx - want) <= 1.1, lambda: h + "marker at x %d for deviation %d (zoom %r), expected %.2f" % (mx, dv, zoom, want))
            eq(me.fill, cin if ins else cout, h + "marker colour at deviation %d (window %d..%d)" % (dv, low, high))


# ------------------------------------------------------------------------------------------------------ strobe
def bright(p, dim):
    p %= 1
    d = min(p, 1 - p)               # distance from the highlight
    return max(0, 1 - d / 0.3)


def strobe(rng, rec):
    W = env.World()
    km = W.imp("pyswitch.clients.kemper")
    el, ui = W.imp("pyswitch.ui.elements"), W.imp("pyswitch.ui.ui")
    C = W.get("pyswitch.colors:Colors")
    CUSTOM = W.get("pyswitch.clients.local.actions.custom:CUSTOM_MESSAGE")
    n = rng.choice([1, 2, 3, 4, 6, 10])
    inputs, led, pix, order, models = [], 0, [], [], []
    useorder = rng.random() < 0.6
    perm = list(range(n))
    rng.shuffle(perm)
    for i in range(n):
        k = rng.choice([0, 1, 3, 3])
        a = {"model": rig.SwModel(), "pixels": tuple(range(led, led + k))}
        models.append(a["model"])
        if useorder:
            a["strobeOrder"] = perm[i] * 3
        order.append((perm[i] if useorder else 0, i))
        pix.append(list(range(led, led + k)))
        led += k
        inputs.append({"assignment": a, "actions": [CUSTOM(message=[0xB0, 1, 2], text="A", color=rng.choice([C.RED, C.BLUE]), led_brightness=rng.choice([0.2, 0.7]))] if rng.random() < 0.8 else []})
    ring = [i for _, i in sorted(order)]
    if rng.random() < 0.2:
        inputs.append({"assignment": {"model": rig.PotModel()}, "actions": []})
    color, dim, speed, fps, rev = C.WHITE, 0.1, 1000, 120, True
    kw = {}
    if rng.random() < 0.6:
        kw["strobe_color"] = color = rng.choice([(255, 0, 0), (0, 200, 100)])
    if rng.random() < 0.7:
        kw["strobe_dim"] = dim = rng.choice([0.5, 1, 0.2])
    if rng.random() < 0.6:
        kw["strobe_speed"] = speed = rng.choice([100, 400, 3000])
    if rng.random() < 0.6:
        kw["strobe_max_fps"] = fps = rng.choice([30, 60, 300])
    if rng.random() < 0.5:
        kw["strobe_reverse"] = rev = rng.random() < 0.5
    if rng.random() < 0.2:
        kw["process_overridden_actions"] = True
    root = ui.DisplayElement(bounds=ui.DisplayBounds(0, 0, 240, 240), children=[rig.label(W, text="Main")])
    splash = km.TunerDisplayCallback(splash_default=root, strobe=True, **kw)
    R = rig.Rig(W, inputs=inputs, splash=splash, config={"updateInterval": 200}, protocol=km.KemperBidirectionalProtocol(30))
    dev = kdev.Device(W, rng.random(), R.inport, R.port, rig=3)
    dev.num[(0x7f, 0x7e)] = 0
    interval = int(1000 / fps * n)

    def tick(dt=1):
        W.clock.advance(dt)
        dev.update()
        R.c.tick()

    for _ in range(80):
        tick(10)
    normal = R.leds
    used = [bool(inp["actions"]) for inp in inputs[:n]]
    phases = {0.0}                   # possible positions of the highlight
    hist = []
    for session in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.5:
            for _ in range(rng.randint(1, 4)):
                dev.num[(0x7c, 0x0f)] = rng.randrange(16384)
                dev.report((0x7c, 0x0f))
                tick(rng.choice([1, 50]))
                rec.n("idle_deviations")
                check_normal(R, pix, used, normal, "deviation received without tuner mode")
        dev.set_tuner(1)
        tick(5)
        last = W.clock.ms
        phases |= {0.0}
        frame = None                 # what is displayed since the last frame
        dv = rng.choice([8191, rng.randrange(16384)])
        lo, hi = rng.choice([(1, 10), (5, 40), (20, 100), (100, 700)])
        for f in range(rng.randint(1, 40)):
            k = rng.random()
            if k < 0.2:
                dv = rng.choice([rng.randrange(16384), 8191, 0, 16383, 8191 + rng.randint(-200, 200), 8191 + rng.randint(-3000, 3000)])
            if k < 0.03:
                m = rng.choice(models)
                m.down = True        # nothing happens before the release
            tick(rng.randint(lo, hi))
            dev.num[(0x7c, 0x0f)] = dv
            dev.report((0x7c, 0x0f))
            t0 = W.clock.ms + 1
            tick(1)
            now = W.clock.ms
            if now - last > interval and n > 1:
                d = clamp(dv - 8191, -100 * interval, 100 * interval) * (1 if rev else -1)
                # positive deviation, not reversed: the pattern moves towards the next switch (its phase shrinks)
                new = {}
                leds = R.leds
                bad = None
                for ph in phases:
                    p = (ph + d * (now - last) / (speed * 2000)) % 1
                    why = compare(leds, p, ring, pix, color, dim, n)
                    if why:
                        bad = why
                    else:
                        new[round(p, 9)] = 1
                if not new:
                    raise Violation("strobe with %d switches (order %r), session %d, deviation %d, %d ms after the last frame: %s; options %r" % (n, ring, session, dv, now - last, bad, kw))
                if d and len(phases) and any(pix):
                    rec.n("strobe_moved")
                phases = set(new)
                last = now
                frame = leds
                rec.n("strobe_frames")
            elif frame is not None:
                eq(R.leds, frame, "LEDs between two frames of the strobe tuner")
            hist.append(dv)
            rec.ev(now, dv)
        for m in models:
            m.down = False
        for _ in range(8):
            tick(5)
        dev.set_tuner(0)
        for _ in range(8):
            tick(10)
        rec.n("leds_back")
        check_normal(R, pix, used, normal, "after tuner mode")
    rec.sig((n, repr(kw), tuple(ring), tuple(len(p) for p in pix), tuple(hist)))


def check_normal(R, pix, used, normal, why):
    leds = R.leds
    for i, ps in enumerate(pix):
        if used[i]:
            for p in ps:
                eq(leds[p], normal[p], "%s: LED of switch %d" % (why, i))


def compare(leds, p, ring, pix, color, dim, n):
    for k, i in enumerate(ring):
        b = bright(p + k / n, dim)
        # brightness is quantised to 16 steps and squared
        steps = {int(x * 16) / 16 for x in (b, max(0, b - 1e-6), min(1, b + 1e-6))}
        for q in pix[i]:
            if not any(all(abs(leds[q][c] - int(color[c] * s * s * dim)) <= 1 for c in range(3)) for s in steps):
                return "LED of switch %d (place %d) shows %r, expected brightness %.3f of %r" % (i, k, leds[q], b * b * dim, color)
    return None
