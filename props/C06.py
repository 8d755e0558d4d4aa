"""Rotary encoders: a value model follows movements, device reports, accept and cancel."""
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "C06"
RULE = ("A case is a controller with 1-3 encoders (CC or NRPN parameter, step, range, direct or preselect with accept/cancel buttons, previews possibly on "
        "a shared label, reset parameter, enable state) under a random history of movements (also negative positions and jumps), device reports, "
        "accept/cancel pushes, enable changes and time; non-trivial when values were sent; signature = setups plus event/value pattern.")
CASES = {"quick": 5000, "thorough": 80000}
FLOORS = {"moves": 5000, "sent": 2500, "accepted": 300, "empty_accept": 200, "cancelled": 150, "reset_cancelled": 20, "clamped": 500, "negative_pos": 1000,
          "skipped_moves": 300, "cross_cancel": 20}
LEVEL_NOTE = ("Exploration: a value model predicts the exact messages of every poll of the real controller for seeded random histories. Fractional steps are "
              "only driven at non-negative positions; the base value is free while the device's value is unknown.")


class En:
    def __init__(self):
        self.on, self.action = True, None

    def init(self, appl):
        pass

    def enabled(self, action):
        return self.on


def run_case(rng, rec, tier):
    W = env.World(start_ms=rng.choice([0, 100000]))
    Enc = W.get("pyswitch.controller.actions.EncoderAction:EncoderAction")
    BTN = W.get("pyswitch.clients.local.actions.encoder_button:ENCODER_BUTTON")
    Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
    CC = W.get("adafruit_midi.control_change:ControlChange")
    SX = W.get("adafruit_midi.system_exclusive:SystemExclusive")
    inputs, encs, labels, btns = [], [], [], []
    MAN = [0x00, 0x20, 0x33]
    shared_label = rng.random() < 0.4
    for i in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["cc", "nrpn"])
        if kind == "cc":
            mapping = Mapping.get(name="cc%d" % i, set=CC(20 + i, 0), response=CC(20 + i, 0))
        else:
            mapping = Mapping.get(name="nr%d" % i, set=SX(MAN, [2, 0x7f, 1, 0, 4, 60 + i]), response=SX(MAN, [0, 0, 1, 0, 4, 60 + i]))
        default = 16383 if kind == "nrpn" else 127
        e = {"kind": kind, "i": i, "m": rig.EncModel(rng.choice([0, 0, -1, 1, -2, 100, -1000])), "name": mapping.name, "val": None, "sel": None, "en": None,
             "label": None, "conv": None, "accept": None, "cancel": None, "reset": None, "resetval": None}
        kw = {"mapping": mapping}
        step = rng.choice([None, None, 1, 2, 7, 80, 0.5, 0.25])
        e["step"] = (80 if kind == "nrpn" else 1) if step is None else step
        if isinstance(step, float):
            e["m"].p = abs(e["m"].p)
        if step is not None:
            kw["step_width"] = step
        mx = rng.choice([None, None, default, 10, 100])
        mn = rng.choice([None, None, 0, 3])
        e["max"], e["min"] = default if mx is None else mx, mn or 0
        if mx is not None:
            kw["max_value"] = mx
        if mn is not None:
            kw["min_value"] = mn
        pre = rng.random() < 0.5
        if pre:
            if btns and rng.random() < 0.3:
                b = rng.choice(btns)
            else:
                b = {"m": rig.SwModel(), "obj": BTN(), "encs": []}
                btns.append(b)
            b["encs"].append((e, "accept"))
            kw["accept_action"] = b["obj"]
            if rng.random() < 0.6:
                c = {"m": rig.SwModel(), "obj": BTN(), "encs": []}
                others = [x for x in btns if not any(y[0] is e for y in x["encs"])]
                if others and rng.random() < 0.3:
                    c = rng.choice(others)
                else:
                    btns.append(c)
                c["encs"].append((e, "cancel"))
                kw["cancel_action"] = c["obj"]
        e["pre"] = pre
        if rng.random() < 0.7:
            if shared_label and labels:
                e["label"] = labels[0]
            else:
                e["label"] = rig.label(W, text="orig")
                labels.append(e["label"])
            kw["preview_display"] = e["label"]
            kw["preview_timeout_millis"] = rng.choice([300, 1500])
            if rng.random() < 0.4:
                e["conv"] = lambda v: "<%d>" % v
                kw["convert_value"] = e["conv"]
            if pre and rng.random() < 0.6:
                e["reset"] = 100 + i
                kw["preview_reset_mapping"] = Mapping.get(name="rs%d" % i, response=CC(100 + i, 0))
        if rng.random() < 0.3:
            e["en"] = En()
            kw["enable_callback"] = e["en"]
        e["act"] = Enc(**kw)
        inputs.append({"assignment": {"model": e["m"]}, "actions": [e["act"]]})
        encs.append(e)
    # A pedal showing its value in the same label as the encoders
    pedal = None
    if labels and rng.random() < 0.4:
        pedal = rig.PotModel()
        inputs.append({"assignment": {"model": pedal}, "actions": [W.get("pyswitch.controller.actions.AnalogAction:AnalogAction")(
            mapping=Mapping.get(name="pedal", set=CC(119, 0)), change_display=labels[0], max_frame_rate=500)]})
    for b in btns:
        inputs.insert(rng.randint(0, len(inputs)), {"assignment": {"model": b["m"]}, "actions": [b["obj"]]})
    R = rig.Rig(W, inputs=inputs, labels=labels, ui=bool(labels), config={"updateInterval": 100})
    R.tick(5)
    got = R.sent_msgs()
    if pedal and got:
        check(got == [rig.cc(119, 0)], "first messages of the pedal: %r" % got)
        got = []
    eq(got, [], "messages without movement")
    if pedal:
        R.run(3500)
        R.sent_msgs()
    sig = []

    def msg(e, v):
        if e["kind"] == "cc":
            return rig.cc(20 + e["i"], v)
        return rig.sysex(MAN, [2, 0x7f, 1, 0, 4, 60 + e["i"], v // 128, v % 128])

    def report(e, v):
        if e["kind"] == "cc":
            R.feed(rig.cc(20 + e["i"], v))
        else:
            R.feed(rig.sysex(MAN, [0, 0, 1, 0, 4, 60 + e["i"], v // 128, v % 128]))

    def previewed(e):
        for o in encs:
            if o is not e and o["label"] is not None and o["label"] is e["label"]:
                if o["sel"] is not None:
                    rec.n("cross_cancel")
                o["sel"] = None

    # nothing is known yet: preselecting may start anywhere, but must not send or fail
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 6)):
            k = rng.random()
            pre = [e for e in encs if e["pre"] and e["en"] is None]
            if k < 0.5 and pre:
                rng.choice(pre)["m"].p += rng.choice([1, 2, 3])
            elif btns:
                b = rng.choice(btns)
                if all(k2 == "cancel" for _, k2 in b["encs"]):
                    b["m"].down = True
                    R.tick(5)
                    b["m"].down = False
            R.tick(rng.choice([1, 5, 120]))
            rec.n("unknown_steps")
        for e in encs:
            if e["pre"]:
                e["act"].cancel()
        R.tick(5)
        eq(R.sent_msgs(), [], "messages while nothing is known")
    # most parameters get known first
    for e in encs:
        if e["pre"] or rng.random() < 0.7:
            e["val"] = rng.choice([0, e["max"], rng.randint(0, e["max"])])
            report(e, e["val"])
    R.settle()
    eq(R.sent_msgs(), [], "messages without movement")

    for step in range(rng.randint(8, 50)):
        r = rng.random()
        want = []          # list of alternatives per message
        what = ""
        if r < 0.55:
            e = rng.choice(encs)
            d = rng.choice([1, 1, 1, -1, -1, -1, 2, -2, 3, -5, 10, -40, 60, 0])
            if e["step"] < 1 and e["m"].p + d < 0:
                d = -d
            old = e["m"].p
            e["m"].p += d
            rec.n("moves")
            if e["m"].p < 0:
                rec.n("negative_pos")
            what = "encoder %s moved %d -> %d (device %r, preselected %r)" % (e["name"], old, e["m"].p, e["val"], e["sel"])
            delta = int(e["m"].p * e["step"]) - int(old * e["step"])
            R.tick(rng.choice([1, 5, 120]))
            got = R.sent_msgs()
            if e["en"] is not None and not e["en"].on:
                rec.n("skipped_moves")
                check(not got, lambda: what + ": disabled encoder sent %r" % got)
            elif delta == 0:
                check(not got, lambda: what + ": sent %r without change" % got)
            elif e["pre"]:
                check(not got, lambda: what + ": preselecting encoder sent %r" % got)
                base = e["sel"] if e["sel"] is not None else e["val"]
                v = max(e["min"], min(e["max"], base + delta))
                if v != base + delta:
                    rec.n("clamped")
                if v != base:
                    e["sel"] = v
                    previewed(e)
                    if e["label"] is not None:
                        eq(e["label"].text, e["conv"](v) if e["conv"] else "%s: %d%%" % (e["name"], round(v * 100 / e["max"])), what + ": preview")
            else:
                base = e["val"] if e["val"] is not None else 0
                v = max(e["min"], min(e["max"], base + delta))
                if v != base + delta:
                    rec.n("clamped")
                if v != base:
                    if got != [msg(e, v)]:
                        raise Violation("%s: sent %r, expected %s (value %d)" % (what, [g.hex() for g in got], msg(e, v).hex(), v))
                    rec.n("sent")
                    e["val"] = v
                    previewed(e)
                    if e["label"] is not None:
                        eq(e["label"].text, e["conv"](v) if e["conv"] else "%s: %d%%" % (e["name"], round(v * 100 / e["max"])), what + ": preview")
                    if rng.random() < 0.3:
                        report(e, v)
                        R.settle()
                        eq(R.sent_msgs(), [], what + ": messages after the device's echo")
                elif e["val"] is None:
                    check(got in ([], [msg(e, v)]), lambda: what + ": sent %r" % got)
                    e["val"] = v
                else:
                    check(not got, lambda: what + ": sent %r although the value stays %d" % ([g.hex() for g in got], v))
            sig.append((e["i"], d, e["val"], e["sel"]))
        elif r < 0.72:
            e = rng.choice(encs)
            v = rng.choice([0, e["max"], rng.randint(0, e["max"])])
            what = "device reports %s = %d" % (e["name"], v)
            report(e, v)
            e["val"] = v
            sig.append((e["i"], "dev", v))
            R.settle()
            eq(R.sent_msgs(), [], what + ": messages")
        elif r < 0.87 and btns:
            b = rng.choice(btns)
            b["m"].down = True
            for e, k in b["encs"]:
                if k == "accept":
                    if e["sel"] is not None:
                        want.append(msg(e, e["sel"]))
                        rec.n("accepted")
                        e["val"] = e["sel"]
                    else:
                        rec.n("empty_accept")
                elif e["sel"] is not None:
                    rec.n("cancelled")
                e["sel"] = None
            what = "push of %s button" % "/".join(k + " " + e["name"] for e, k in b["encs"])
            R.tick(5)
            b["m"].down = False
            R.tick(5)
            got = R.sent_msgs()
            sig.append(("btn", len(want)))
            if got != want:
                raise Violation("%s: sent %r, expected %r" % (what, [g.hex() for g in got], [w.hex() for w in want]))
        elif r < 0.92:
            es = [e for e in encs if e["reset"]]
            if es:
                e = rng.choice(es)
                v = rng.randint(0, 127)
                what = "reset parameter of %s = %d" % (e["name"], v)
                R.feed(rig.cc(e["reset"], v))
                R.settle()
                on = e["en"] is None or e["en"].on
                if on or e["resetval"] is not None:
                    pass
                if e["resetval"] is not None and v != e["resetval"]:
                    if on:
                        if e["sel"] is not None:
                            rec.n("reset_cancelled")
                        e["sel"] = None
                    else:
                        e["pendingreset"] = True
                e["resetval"] = v
                eq(R.sent_msgs(), [], what + ": messages")
        elif r < 0.94 and pedal:
            what = "pedal moved"
            pedal.v = (pedal.v + 16384) % 65536
            R.tick(5)
            R.tick(5)
            eq(R.sent_msgs(), [rig.cc(119, pedal.v >> 9)], what)
            for e in encs:
                if e["label"] is labels[0]:
                    if e["sel"] is not None:
                        rec.n("pedal_cancel")
                    e["sel"] = None
        elif r < 0.96:
            e = rng.choice(encs)
            if e["en"] is not None:
                e["en"].on = not e["en"].on
                what = "encoder %s enabled: %s" % (e["name"], e["en"].on)
                if e["en"].on and e.get("pendingreset"):
                    # the change may have gone back and forth: resolve by cancelling explicitly
                    e["act"].cancel()
                    e["sel"] = None
                    e["pendingreset"] = False
            R.tick(5)
            eq(R.sent_msgs(), [], what + ": messages")
        else:
            R.run(rng.choice([100, 500, 2000]))
            eq(R.sent_msgs(), [], "messages in idle time")
        rec.ev(W.clock.ms, what, [(e["val"], e["sel"]) for e in encs])
    if any(len(s) > 2 for s in sig):
        rec.sig((tuple((e["kind"], e["step"], e["max"], e["pre"]) for e in encs), tuple(sig)))
