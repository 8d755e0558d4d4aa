"""Effect slot actions against a simulated device: after things settle, every display equals the device's slot."""
from vlib import env, rig, kdev
from vlib.runner import Violation, check, eq

ID = "K03"
RULE = ("A case is a set of effect slot actions (slots, modes, names, colours, LEDs, config options), with or without bidirectional protocol, on a simulated device with random latency, and a history of "
        "bursts of device-side changes (types and states in any order, rig changes, empty slots) and presses. Each settled moment is compared to a table of types written from the "
        "device's documentation. Signature = configuration and history; non-trivial when types, states and presses occurred.")
CASES = {"quick": 1500, "thorough": 20000}
FLOORS = {"settled_checks": 8000, "presses": 2000, "empty_shown": 1500, "on_shown": 3000, "type_changes": 6000, "state_first": 800, "commands": 2000}
LEVEL_NOTE = ("Exploration: LEDs, labels and commands of real controllers connected to a simulated device are compared with an independent table of effect types at every settled moment.")

OFF = (50, 50, 50)
R_, O, C, B, P, Y, W_, LG, G, PK = (255, 0, 0), (255, 125, 0), (0, 255, 255), (0, 0, 255), (180, 0, 120), (255, 255, 0), (255, 255, 255), (100, 255, 100), (0, 255, 0), (255, 125, 70)
CAT = {}


def put(types, name, col):
    for t in types:
        CAT[t] = (name, col)


put(list(range(1, 11)) + [12, 13], "Wah", O)
put([11] + list(range(129, 133)), "Pitch", W_)
put(range(17, 43), "Dist", R_)
put([49, 50], "Comp", C)
put([57, 58], "Gate", C)
put([64], "Space", G)
put([65, 66, 67, 71], "Chorus", B)
put([68], "Vibrato", B)
put([69], "Rotary", B)
put([70, 75, 76], "Tremolo", B)
put(range(77, 81), "Slicer", B)
put(range(81, 92), "Phaser", P)
put(range(97, 105), "EQ", Y)
put(range(113, 117), "Boost", R_)
put(range(121, 124), "Looper", PK)
put(range(137, 141), "Dual", LG)
put(range(145, 167), "Delay", G)
put(range(177, 194), "Reverb", G)

EXT = {0: "Empty", 1: "Wah", 2: "LP", 3: "HP", 4: "Vowel", 6: "Wah Ph", 7: "Wah Fl", 8: "Wah RR", 9: "Ring", 10: "FShift", 11: "Pitch", 12: "Wah Form", 13: "VinylStp",
       17: "Bit Shp", 18: "Octa Shp", 19: "Soft Shp", 20: "Hard Shp", 21: "Wave Shp", 32: "KDrive", 33: "Green", 34: "Plus DS", 35: "One DS", 36: "Muff", 37: "Mouse",
       38: "KFuzz", 39: "Metal DS", 42: "Full OC", 49: "Comp", 50: "Swell", 57: "Gate 2:1", 58: "Gate 4:1", 64: "Space", 65: "VChorus", 66: "HChorus", 67: "Air Ch.",
       68: "Vibrato", 69: "Rotary", 70: "Tremolo", 71: "MPitch", 75: "Tremolo", 76: "HarmTrem", 77: "Pulse", 78: "Saw", 79: "PulsePan", 80: "SawPan", 81: "Phaser", 82: "Vibe",
       83: "Ph 1way", 89: "Flanger", 90: "Fl 1way", 97: "Graphic", 98: "StudioEQ", 99: "MetalEQ", 100: "Acoustic", 101: "Wide", 102: "WidePh", 103: "WideDLY", 104: "Double",
       113: "Treble", 114: "Lead", 115: "Boost", 116: "WahBoost", 121: "Loop", 122: "Loop", 123: "LoopDist", 129: "Transp", 130: "ChromPtch", 131: "HarmPtch", 132: "Octave",
       137: "DualChrom", 138: "DualHarm", 139: "DualCryst", 140: "DualLoop", 145: "LDelay", 146: "SDelay", 147: "DualDly", 148: "2TpDelay", 149: "S2TDelay", 150: "Crystal",
       151: "LoopPitch", 152: "FShiftDly", 161: "RhDelay", 162: "MeloChr", 163: "MeloHarm", 164: "QuadDly", 165: "QuadChrm", 166: "QuadHarm", 177: "LReverb", 178: "NatRev",
       179: "EasyRev", 180: "Echo", 181: "Cirrus", 182: "FormRev", 183: "Sphere", 193: "Spring"}
SLOTS = [("A", 0x32, 17), ("B", 0x33, 18), ("C", 0x34, 19), ("D", 0x35, 20), ("X", 0x38, 22), ("MOD", 0x3a, 24), ("DLY", 0x3c, 27), ("REV", 0x3d, 29), ("DLYns", 0x3c, 26), ("REVns", 0x3d, 28)]
MODES = {"ENABLE": 0, "DISABLE": 10, "LATCH": 20, "MOMENTARY": 30, "MOMENTARY_INVERSE": 40, "HOLD_MOMENTARY": 50}


def dim(c, f):
    return tuple(int(x * f) for x in c)


def near(a, b):
    return all(abs(x - y) <= 1 for x, y in zip(a, b))


class Item:
    pass


def run_case(rng, rec, tier):
    W = env.World()
    km = W.imp("pyswitch.clients.kemper")
    bidi = rng.random() < 0.6
    cfg = {"updateInterval": rng.choice([100, 200, 350])}
    on_b, off_b, on_d, off_d = 0.3, 0.02, 1, 0.2
    if rng.random() < 0.4:
        on_b, off_b, on_d, off_d = rng.choice([0.5, 1]), rng.choice([0, 0.1]), rng.choice([0.8, 1]), rng.choice([0.4, 0.1])
        cfg.update(ledBrightnessOn=on_b, ledBrightnessOff=off_b, displayDimFactorOn=on_d, displayDimFactorOff=off_d)
    items, inputs, led = [], [], 0
    labels = []
    for i in range(rng.randint(1, 5)):
        m = rig.SwModel()
        n = rng.choice([0, 1, 2, 3, 5])
        na = rng.choice([1, 1, 1, 2])
        acts = []
        for a in range(na):
            it = Item()
            it.slot = rng.choice([k for k in range(10) if SLOTS[k][1] not in [SLOTS[x._it.slot][1] for x in acts]])
            it.ext = rng.random() < 0.4
            it.mode = rng.choice(["HOLD_MOMENTARY", "LATCH", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "ENABLE", "DISABLE"])
            it.names = rng.random() < 0.3
            it.text = rng.choice([None, None, None, "Fx!"])
            it.color = rng.choice([None, None, None, (10, 200, 30)])
            it.leds = rng.random() < 0.85
            it.label = rig.label(W, back=(1, 2, 3), y=10 * len(labels)) if rng.random() < 0.8 else None
            if it.label:
                labels.append(it.label)
            it.sw = m
            f = W.get("pyswitch.clients.kemper.actions.effect_state_extended_names:EFFECT_STATE_EXT" if it.ext else "pyswitch.clients.kemper.actions.effect_state:EFFECT_STATE")
            kw = {}
            if it.mode != "HOLD_MOMENTARY" or rng.random() < 0.5:
                kw["mode"] = MODES[it.mode]
            acts.append(f(it.slot, display=it.label, show_slot_names=it.names, text=it.text, color=it.color, use_leds=it.leds, **kw))
            it.pix = []
            acts[-1]._it = it
            items.append(it)
        use = [x._it for x in acts if x._it.leds]
        pix = list(range(led, led + n))
        led += n
        if len(use) == 1:
            use[0].pix = pix
        elif len(use) < n:
            for k, it in enumerate(use):
                it.pix = pix[:n - len(use) + 1] if k == 0 else [pix[n - len(use) + k]]
        else:
            for k, it in enumerate(use):
                it.pix = pix[k:k + 1]
        inputs.append({"assignment": {"model": m, "pixels": tuple(pix)} if n else {"model": m}, "actions": acts})
    R = rig.Rig(W, inputs=inputs, labels=labels, config=cfg, protocol=km.KemperBidirectionalProtocol(30) if bidi else None)
    dev = kdev.Device(W, rng.random(), R.inport, R.port, rig=rng.randrange(625))
    if rng.random() < 0.6:
        dev.latency = lambda: rng.choice([0, 1, 7, 40])
    dt = rng.choice([5, 10, 25])

    def run(ms):
        t = 0
        while t < ms:
            W.clock.advance(dt)
            t += dt
            dev.update()
            R.c.tick()

    def settle():
        run(2 * cfg["updateInterval"] + 600)
        R.sent()

    def verify(why):
        leds = R.leds
        for it in items:
            name, page, ccn = SLOTS[it.slot]
            t, st = dev.num[(page, 0)], dev.num[(page, 3)]
            cat, col = CAT.get(t, ("-", OFF))
            on = bool(st) and t in CAT
            if it.color:
                col = it.color
            txt = EXT.get(t, cat) if it.ext else cat
            if it.names:
                txt = name + " " + txt
            if it.text:
                txt = it.text
            rec.n("settled_checks")
            rec.n("on_shown", int(on))
            rec.n("empty_shown", int(t not in CAT))
            rec.state((t, st, it.ext))
            for p in it.pix:
                check(near(leds[p], dim(col, on_b if on else off_b)), lambda: "%s: slot %s has type %d state %d: LED %d shows %r, expected %r (%s)" % (why, name, t, st, p, leds[p], dim(col, on_b if on else off_b), "on" if on else "off"))
            if it.label:
                eq(it.label.text, txt, "%s: label of slot %s (type %d)" % (why, name, t))
                want = dim(col, on_d if on else off_d)
                check(near(it.label.back_color, want), lambda: "%s: slot %s has type %d state %d: label colour %r, expected %r" % (why, name, t, st, it.label.back_color, want))

    run(1500)
    R.sent()
    verify("after start")
    hist = []
    pages = sorted({SLOTS[it.slot][1] for it in items})
    for step in range(rng.randint(3, 9)):
        k = rng.random()
        if k < 0.6:
            for _ in range(rng.choice([1, 1, 2, 5])):
                p = rng.choice(pages)
                t = rng.choice([0, 0, rng.choice(list(CAT)), rng.choice(list(CAT)), rng.randrange(200)])
                r = rng.random()
                if r < 0.2:
                    dev.load(rng.randrange(625))
                    hist.append(("rig", dev.rig))
                    rec.n("type_changes")
                elif r < 0.45:
                    dev.set((p, 0), t)
                    hist.append(("type", p, t))
                    rec.n("type_changes")
                elif r < 0.65:
                    dev.set((p, 3), rng.choice([0, 1]))
                    hist.append(("state", p, dev.num[(p, 3)]))
                elif r < 0.85:
                    dev.set((p, 3), rng.choice([0, 1]))
                    run(rng.choice([0, 0, dt, 300]))
                    dev.set((p, 0), t)
                    rec.n("state_first")
                    rec.n("type_changes")
                    hist.append(("state+type", p, t, dev.num[(p, 3)]))
                else:
                    dev.set((p, 0), t)
                    run(rng.choice([0, 0, dt, 300]))
                    dev.set((p, 3), rng.choice([0, 1]))
                    rec.n("type_changes")
                    hist.append(("type+state", p, t, dev.num[(p, 3)]))
                run(rng.choice([0, 0, dt, 250]))
            settle()
            verify("after %r" % hist[-5:])
        else:
            sw = rng.choice([it.sw for it in items])
            mine = [it for it in items if it.sw is sw]
            rec.n("presses")
            before = {it: (bool(dev.num[(SLOTS[it.slot][1], 3)]) and dev.num[(SLOTS[it.slot][1], 0)] in CAT) for it in mine}
            long = rng.random() < 0.3
            R.sent()
            sw.down = True
            run(900 if long else rng.choice([dt, 100]))
            sw.down = False
            run(dt)
            got = [m for t, m in R.sent() if m[0] == 0xB0]
            single = len({SLOTS[it.slot][1] for it in mine}) == len(mine)
            want = []
            rel = []
            for it in mine:
                ccn = SLOTS[it.slot][2]
                s = before[it]
                if it.mode == "ENABLE":
                    want += [] if s else [(ccn, 1)]
                elif it.mode == "DISABLE":
                    want += [(ccn, 0)] if s else []
                elif it.mode in ("LATCH", "HOLD_MOMENTARY"):
                    want.append((ccn, int(not s)))
                    if it.mode == "HOLD_MOMENTARY" and long:
                        rel.append((ccn, int(s)))
                elif it.mode == "MOMENTARY":
                    want += [] if s else [(ccn, 1)]
                    rel.append((ccn, 0))
                else:
                    want += [(ccn, 0)] if s else []
                    rel.append((ccn, 1))
            want += rel
            hist.append(("press", [it.mode for it in mine], long))
            empty = any(dev.num[(SLOTS[it.slot][1], 0)] not in CAT for it in mine)
            if single and not empty:
                # on an empty slot the press has no state to return from
                eq([(m[1], m[2]) for m in got], want, "commands of a %s press on %r (shown %r)" % ("long" if long else "short", [(it.mode, SLOTS[it.slot][0]) for it in mine], list(before.values())))
                rec.n("commands", len(want))
            else:
                for m in got:
                    check(m[1] in [SLOTS[it.slot][2] for it in mine] and m[2] in (0, 1), "unexpected command %s" % m.hex())
            settle()
            verify("after %r" % hist[-5:])
        rec.ev(W.clock.ms, hist[-1])
    rec.sig((bidi, [(i.slot, i.mode, i.ext) for i in items], repr(hist)))
