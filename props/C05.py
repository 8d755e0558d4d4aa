"""Expression pedals: rate, range, redundancy and exactness monitors over the messages sent for arbitrary reading streams."""
import math
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "C05"
RULE = ("A case is a pedal with 1-3 actions (CC, NRPN or program parameter; random maximum, step count, frame rate, dead zone, calibration, transfer "
        "function, preview, enable state) under a random stream of readings (noise, ramps, jumps, extremes) and poll gaps; non-trivial when values were "
        "sent; signature = setups plus number and direction pattern of values sent.")
CASES = {"quick": 5000, "thorough": 80000}
FLOORS = {"sent": 8000, "held_back": 2000, "settled": 3000, "deadzone": 500, "calibrated": 500, "transfer": 500, "previews": 300, "previews_ended": 50, "suppressed_noise": 500}
LEVEL_NOTE = ("Exploration: every message sent is checked online against the reading present at that poll (exact scaling with either rounding of ties), the "
              "value range, the previous value, the frame rate and the latency bound after readings settle, over seeded random reading streams.")


class En:
    def __init__(self):
        self.on, self.action = True, None

    def init(self, appl):
        pass

    def enabled(self, action):
        return self.on


def scaled(raw, mx, steps, minraw):
    """acceptable outputs for a (calibrated) reading"""
    if minraw is not None and raw < minraw:
        return {0}
    w = 65536 // steps
    out = set()
    k = raw / w
    for r in {round(k), math.floor(k + 0.5)}:
        for q in (r * w * (mx + 1) / 65536, r * w / (65536 / (mx + 1)), r * w * (mx + 1) / 65536 - 1e-9):
            out.add(max(0, min(mx, int(q))))
    return out


def run_case(rng, rec, tier):
    W = env.World(start_ms=rng.choice([0, 100000]))
    Analog = W.get("pyswitch.controller.actions.AnalogAction:AnalogAction")
    Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
    CC = W.get("adafruit_midi.control_change:ControlChange")
    PC = W.get("adafruit_midi.program_change:ProgramChange")
    SX = W.get("adafruit_midi.system_exclusive:SystemExclusive")
    pot = rig.PotModel(rng.choice([0, 30000, 65535]))
    acts, labels = [], []
    cal_case = rng.random() < 0.3
    maxint = 0
    for i in range(rng.choice([1, 1, 1, 2, 3])):
        kind = rng.choice(["cc", "cc", "nrpn", "pc"])
        default = 16383 if kind == "nrpn" else 127
        mx = rng.choice([None, None, default, 1, 10, rng.randint(1, default)])
        if kind == "cc":
            mapping = Mapping.get(name="cc%d" % i, set=CC(20 + i, 0))
        elif kind == "pc":
            mapping = Mapping.get(name="pc%d" % i, set=PC(0))
        else:
            mapping = Mapping.get(name="nr%d" % i, set=SX([0x00, 0x20, 0x33], [2, 0x7f, 1, 0, 4, 60 + i]))
        if kind == "pc" and any(a["kind"] == "pc" for a in acts):
            continue
        fps = rng.choice([24, 24, 10, 50, 100, 1])
        a = {"kind": kind, "mx": default if mx is None else mx, "fps": fps, "i": i, "last": None, "lastt": None, "stable": None,
             "steps": rng.choice([128, 128, 128, 2, 3, 10, 100, 1024, 4096, 16384]), "cal": cal_case and rng.random() < 0.8, "en": None,
             "minraw": rng.choice([1024, 1024, 1024, None, 0, 5000]), "win": rng.choice([0.25, 0.25, 0.1, 0.5, 0.01, 0]), "lo": None, "hi": None,
             "fn": None, "label": None, "conv": None}
        kw = {"mapping": mapping}
        if mx is not None:
            kw["max_value"] = mx
        if fps != 24 or rng.random() < 0.5:
            kw["max_frame_rate"] = fps
        if a["steps"] != 128 or rng.random() < 0.5:
            kw["num_steps"] = a["steps"]
        if a["minraw"] != 1024 or rng.random() < 0.5:
            kw["min_raw_value"] = a["minraw"]
        if a["cal"]:
            kw["auto_calibrate"] = True
            kw["cal_min_window"] = a["win"]
        if rng.random() < 0.2:
            top = a["mx"]
            fn = rng.choice([lambda v, top=top: min(top, v * (top + 1) // 65536), lambda v, top=top: top - min(top, v * (top + 1) // 65536),
                             lambda v, top=top: top if v > 32768 else 0, lambda v, top=top: int(((v / 65535) ** 2) * top)])
            seen = []
            a["fn"], a["fnseen"] = fn, seen
            kw["transfer_function"] = (lambda f, s: lambda v: (s.append(v), f(v))[1])(fn, seen)
        if rng.random() < 0.3:
            a["en"] = En()
            kw["enable_callback"] = a["en"]
        if rng.random() < 0.25:
            a["label"] = rig.label(W, text="orig")
            labels.append(a["label"])
            kw["change_display"] = a["label"]
            if rng.random() < 0.4:
                a["conv"] = lambda v: "<%d>" % v
                kw["convert_value"] = a["conv"]
            a["timeout"], a["shown"] = 1500, None
            if rng.random() < 0.5:
                a["timeout"] = kw["change_timeout_millis"] = rng.choice([300, 800, 2500])
        a["name"] = mapping.name
        a["act"] = Analog(**kw)
        a["int"] = 1000 / fps
        maxint = max(maxint, a["int"])
        acts.append(a)
    R = rig.Rig(W, inputs=[{"assignment": {"model": pot}, "actions": [x["act"] for x in acts]}], labels=labels, ui=bool(labels))
    sig = []

    def decode(m):
        for a in acts:
            if a["kind"] == "cc" and m[:2] == bytes([0xB0, 20 + a["i"]]) and len(m) == 3:
                return a, m[2]
            if a["kind"] == "pc" and m[0] == 0xC0 and len(m) == 2:
                return a, m[1]
            if a["kind"] == "nrpn" and m[:-3] == bytes([0xF0, 0, 0x20, 0x33, 2, 0x7f, 1, 0, 4, 60 + a["i"]]):
                return a, m[-3] * 128 + m[-2]
        raise Violation("unexpected message " + m.hex())

    def wanted(a, raw):
        """set of acceptable values for this reading, None: nothing may be sent (calibration window)"""
        if a["cal"]:
            if a["lo"] is None or a["hi"] - a["lo"] < int(65536 * a["win"]):
                return None
            if a["lo"] == a["hi"]:
                raw, f = 0, 1
            else:
                f = 65536 / (a["hi"] - a["lo"])
                raw = min(65535, max(0, int((raw - a["lo"]) * 65536 / (a["hi"] - a["lo"]))))
            cands = {raw}
            cands.add(min(65535, int((pot.v - a["lo"]) * f)))
        else:
            cands = {raw}
        if a["fn"]:
            return {a["fn"](c) for c in cands}
        out = set()
        for c in cands:
            out |= scaled(c, a["mx"], a["steps"], a["minraw"])
        return out

    ticks = []

    def previews(got):
        """Values sent are shown for the time set up, then the display returns to what it showed before"""
        now = W.clock.ms
        ticks.append(now)
        for a in acts:
            if a["label"] is None:
                continue
            for b, v in got:
                if b is a:
                    rec.n("previews")
                    a["shown"] = (now, a["conv"](v) if a["conv"] else "%s: %d%%" % (a["name"], round(v * 100 / a["mx"])))
            if a["shown"] and now - a["shown"][0] < a["timeout"]:
                eq(a["label"].text, a["shown"][1], "preview text of %s (timeout %d) %d ms after sending" % (a["name"], a["timeout"], now - a["shown"][0]))
            # time for an update after it ended
            elif not a["shown"] or sum(1 for t in ticks if t > a["shown"][0] + a["timeout"] + 205) >= 2:
                eq(a["label"].text, "orig", "text of the display of %s, preview ended" % a["name"])
                if a["shown"]:
                    rec.n("previews_ended")
                    a["shown"] = None

    style = rng.choice(["noise", "ramp", "jump", "jitter", "mix"])
    ramp = rng.choice([-1, 1]) * rng.choice([100, 1000, 5000])
    nsteps = rng.randint(10, 80)
    for step in range(nsteps):
        st = rng.choice(["noise", "ramp", "jump", "jitter", "stay"]) if style == "mix" else style
        if rng.random() < 0.15:
            st = "stay"
        if st == "noise":
            pot.v = rng.randint(0, 65535)
        elif st == "ramp":
            pot.v = max(0, min(65535, pot.v + ramp))
            if pot.v in (0, 65535):
                ramp = -ramp
        elif st == "jump":
            pot.v = rng.choice([0, 1, 255, 256, 1023, 1024, 1025, 32767, 32768, 65279, 65280, 65535, rng.randint(0, 65535)])
        elif st == "jitter":
            pot.v = max(0, min(65535, pot.v + rng.randint(-300, 300)))
        dt = rng.choice([1, 5, 20, 41, 42, 43, 60, 150, int(maxint) + 3])
        if cal_case:
            dt = int(maxint) + rng.randint(2, 30)   # every reading is seen by all actions
        if a["en"] is not None or True:
            for a in acts:
                if a["en"] is not None and rng.random() < 0.1:
                    a["en"].on = not a["en"].on
                    a["stable"] = None
        for a in acts:
            if a["stable"] is None or a["stable"][0] != pot.v:
                a["stable"] = (pot.v, W.clock.ms + dt)
            if a["cal"] and (a["en"] is None or a["en"].on):
                a["lo"] = pot.v if a["lo"] is None else min(a["lo"], pot.v)
                a["hi"] = pot.v if a["hi"] is None else max(a["hi"], pot.v)
        R.tick(dt)
        now = W.clock.ms
        got = [decode(m) for m in R.sent_msgs()]
        rec.ev("t", now, "reading", pot.v, "sent", [(a["name"], v) for a, v in got])
        eq(len({id(a) for a, v in got}), len(got), "actions sending more than once for one poll (%r)" % [(a["name"], v) for a, v in got])
        for a, v in got:
            rec.n("sent")
            what = "%s (max %d, steps %d, fps %d) at t=%d reading %d sent %d" % (a["name"], a["mx"], a["steps"], a["fps"], now, pot.v, v)
            check(a["en"] is None or a["en"].on, what + ": action is disabled")
            check(0 <= v <= a["mx"], what + ": out of range")
            check(v != a["last"], what + ": same value as before")
            if a["lastt"] is not None:
                check(now - a["lastt"] >= int(a["int"]), lambda: what + ": only %d ms after the previous one" % (now - a["lastt"]))
            w = wanted(a, pot.v)
            check(w is not None, what + ": calibration window not reached")
            check(v in w, lambda: what + ": expected %s" % sorted(w))
            if v == 0 and a["minraw"] and 0 < pot.v < a["minraw"] and not a["cal"]:
                rec.n("deadzone")
            if a["cal"]:
                rec.n("calibrated")
            if a["fn"]:
                rec.n("transfer")
            sig.append((a["i"], 0 if a["last"] is None else (v > a["last"]) - (v < a["last"])))
            a["last"], a["lastt"] = v, now
        previews(got)
        for a in acts:
            if a["fn"]:
                for x in a["fnseen"]:
                    check(isinstance(x, int) and 0 <= x <= 65535, "transfer function called with %r" % (x,))
                a["fnseen"].clear()
            if a["en"] is not None and not a["en"].on:
                continue
            w = wanted(a, pot.v)
            if w is None:
                continue
            if a["last"] in w:
                if a["stable"][0] != pot.v:
                    rec.n("suppressed_noise")
                elif len(sig) and now != a["lastt"]:
                    rec.n("suppressed_noise")
            else:
                rec.n("held_back")
            # stable long enough: must have been sent
            if now - a["stable"][1] > 2 * a["int"] + 2 or cal_case and a["stable"][1] < now and now - a["stable"][1] > 2 * a["int"] + 2:
                rec.n("settled")
                check(a["last"] in w, lambda: "%s: reading %d stable for %d ms but last value sent is %r, expected %s" % (
                    a["name"], pot.v, now - a["stable"][1], a["last"], sorted(w)))
        if rng.random() < 0.02 and labels:
            for _ in range(9):
                R.tick(300)
                got = [decode(m) for m in R.sent_msgs()]
                previews(got)
                for a, v in got:
                    w = wanted(a, pot.v)
                    check(w is not None and v in w and v != a["last"], lambda: "%s with reading %d sent %d (last %r), expected %s" % (a["name"], pot.v, v, a["last"], w))
                    a["last"], a["lastt"] = v, W.clock.ms
        if rng.random() < 0.12:
            # let it settle completely
            for _ in range(5):
                R.tick(int(maxint) + 2)
                got = [decode(m) for m in R.sent_msgs()]
                previews(got)
                for a, v in got:
                    rec.n("sent")
                    w = wanted(a, pot.v)
                    check(w is not None and v in w and v != a["last"] and (a["en"] is None or a["en"].on),
                          lambda: "%s settling on %d sent %d (last %r), expected %s" % (a["name"], pot.v, v, a["last"], w))
                    a["last"], a["lastt"] = v, W.clock.ms
            for a in acts:
                w = wanted(a, pot.v)
                if w is not None and (a["en"] is None or a["en"].on):
                    rec.n("settled")
                    check(a["last"] in w, lambda: "%s: reading %d settled but last value sent is %r, expected %s" % (a["name"], pot.v, a["last"], sorted(w)))
    if sig:
        rec.sig((tuple((a["kind"], a["mx"], a["fps"], a["steps"], a["cal"]) for a in acts), tuple(sig)))
