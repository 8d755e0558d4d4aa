"""Push button modes: a reference state machine per button follows presses, device feedback and resets."""
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "C02"
RULE = ("A case is a controller with 1-4 push buttons (random mode, hold time, on/off values; some share a parameter) under a random history of "
        "presses, releases, time steps, device value reports and resets; non-trivial when a user state change was sent; signature = modes plus "
        "the sequence of (event, resulting state).")
CASES = {"quick": 4000, "thorough": 60000}
FLOORS = {"pushes": 2000, "sent": 1500, "feedback_changes": 300, "long_releases": 100, "resets": 100, "silent_pushes": 100}
LEVEL_NOTE = ("Exploration: a reference machine for each documented mode predicts state (observed through LED brightness) and the messages on the "
              "port after every step of seeded random histories on the real controller.")

MODES = ["ENABLE", "DISABLE", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY", "ONE_SHOT", "NO_STATE_CHANGE", None]


def run_case(rng, rec, tier):
    W = env.World(start_ms=rng.choice([0, 100000]))
    PBA = W.get("pyswitch.controller.actions:PushButtonAction")
    BPC = W.get("pyswitch.controller.callbacks:BinaryParameterCallback")
    Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
    CC = W.get("adafruit_midi.control_change:ControlChange")
    n = rng.randint(1, 4)
    btns, inputs = [], []
    ccs = rng.sample(range(0, 120), n)
    for i in range(n):
        mode = rng.choice(MODES)
        c = rng.choice(ccs[:i + 1])
        mapping = Mapping.get(name="p%d" % c, set=CC(c, 0), response=CC(c, 0))
        hold = rng.choice([None, 30, 200, 600, 1500])
        on = rng.randint(1, 127)
        off = rng.choice([0, rng.randint(0, on - 1)])
        cfg = {"callback": BPC(mapping=mapping, value_enable=on, value_disable=off, color=(200, 100, 50)), "useSwitchLeds": True}
        if mode:
            cfg["mode"] = getattr(PBA, mode)
        if hold is not None:
            cfg["holdTimeMillis"] = hold
        m = rig.SwModel()
        acts = [PBA(cfg)]
        # Other actions of the switch must not matter
        while rng.random() < 0.3:
            acts.insert(rng.randint(0, len(acts)), PBA({"mode": PBA.NO_STATE_CHANGE, "useSwitchLeds": False}) if rng.random() < 0.5 else PBA({"useSwitchLeds": False}))
        inputs.append({"assignment": {"model": m, "pixels": (i,)}, "actions": acts})
        btns.append({"m": m, "mode": mode or "HOLD_MOMENTARY", "cc": c, "on": on, "off": off, "hold": 600 if hold is None else hold,
                     "state": False, "seen": None, "t": None})
    R = rig.Rig(W, inputs=inputs, ui=False)
    R.tick(1)
    R.tick(250)
    eq(R.sent_msgs(), [], "messages sent without user input")
    values = {}
    sig = []
    led_on, led_off = (60, 30, 15), (4, 2, 1)

    def want_led(b):
        return led_on if b["state"] else led_off

    for step in range(rng.randint(6, 45)):
        dt = rng.choice([1, 5, 20, 60, rng.randint(1, 400), rng.randint(300, 2500)])
        now = W.clock.ms + dt
        for _ in range(5):
            for b in btns:
                if b["t"] is not None and b["t"] + b["hold"] == now:
                    now += 1
        dt = now - W.clock.ms
        want = []
        kind = rng.random()
        if kind < 0.70:
            i = rng.randrange(n)
            b = btns[i]
            b["m"].down = not b["m"].down
            down = b["m"].down
            rec.ev("t", now, "button", i, b["mode"], "down" if down else "up", "state", b["state"])
            old = b["state"]
            md = b["mode"]
            new = old
            if down:
                rec.n("pushes")
                if md == "ENABLE":
                    new = True
                elif md == "DISABLE":
                    new = False
                elif md in ("LATCH", "HOLD_MOMENTARY"):
                    new = not old
                    b["t"] = now
                elif md == "MOMENTARY":
                    new = True
                elif md == "MOMENTARY_INVERSE":
                    new = False
                elif md == "ONE_SHOT":
                    new = True
                    old = False
                if new != old:
                    want.append(rig.cc(b["cc"], b["on"] if new else b["off"]))
                else:
                    rec.n("silent_pushes")
            else:
                if md == "MOMENTARY":
                    new = False
                elif md == "MOMENTARY_INVERSE":
                    new = True
                elif md == "HOLD_MOMENTARY" and now - b["t"] > b["hold"]:
                    new = not old
                    rec.n("long_releases")
                if md == "ONE_SHOT":
                    new = old = False
                if md in ("MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY") and new != old:
                    want.append(rig.cc(b["cc"], b["on"] if new else b["off"]))
            b["state"] = new
            sig.append((i, down, new))
            R.tick(dt)
        elif kind < 0.92:
            c = rng.choice(btns)["cc"]
            v = rng.choice([0, 127, rng.randint(0, 127), rng.choice(btns)["on"]])
            if values.get(c) == v:
                v = (v + 1) % 128
            values[c] = v
            rec.ev("t", now, "device reports", c, v)
            ch = rng.randint(0, 15)
            R.feed(rig.cc(c, v, ch))
            for b in btns:
                if b["cc"] == c:
                    s = v >= b["on"]
                    if s != b["state"]:
                        rec.n("feedback_changes")
                    b["state"] = s
            sig.append(("fb", c, v))
            R.tick(dt)
        elif kind < 0.96:
            rec.n("resets")
            rec.ev("t", now, "reset all actions")
            R.c.reset_actions()
            for b in btns:
                b["state"] = values.get(b["cc"]) is not None and values[b["cc"]] >= b["on"]
            sig.append("reset")
            R.tick(dt)
        else:
            R.tick(dt)
        got = R.sent_msgs()
        rec.n("sent", len(want))
        if got != want:
            raise Violation("step %d (%s): messages sent %r, expected %r" % (step, rec.trace[-1] if rec.trace else "", [g.hex() for g in got], [w.hex() for w in want]))
        for i, b in enumerate(btns):
            if R.leds[i] != want_led(b):
                raise Violation("step %d: button %d (mode %s) shows %r, state should be %s" % (step, i, b["mode"], R.leds[i], b["state"]))
    if any(isinstance(s, tuple) for s in sig):
        rec.sig((tuple((b["mode"], b["hold"]) for b in btns), tuple(sig)))
