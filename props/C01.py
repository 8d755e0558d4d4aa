"""Switch press/hold dispatch: online monitor comparing recorded triggers with the press history actually polled."""
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "C01"
RULE = ("A case is one controller with 1-3 switches (random action lists, nested lists, enabled flags, hold actions, hold times, "
        "repeat) and a random history of presses, releases, poll gaps and enable changes; non-trivial when at least one press was "
        "completed and triggered something; signature = configuration plus the sequence of (trigger kind, duration class).")
CASES = {"quick": 4000, "thorough": 60000}
FLOORS = {"presses": 2000, "hold_fires": 200, "normal_triggers": 1000, "hold_at_release": 20, "repeat_fires": 50}
LEVEL_NOTE = ("Exploration: an online monitor derives the expected triggers of each polled press from its duration only and compares them "
              "with what the actions of the real controller recorded, over seeded random press histories with poll jitter. "
              "Assumes the poll is the only view of the switch and that enabled flags change only while the switch is up.")


class EnableCb:
    def __init__(self):
        self.on = True
        self.action = None

    def init(self, appl):
        pass

    def enabled(self, action):
        return self.on


def run_case(rng, rec, tier):
    W = env.World(start_ms=rng.choice([0, 500, 100000, 5 * 10**7]))
    Action = W.get("pyswitch.controller.actions:Action")
    log = []

    class RecAction(Action):
        def __init__(self, name, cb):
            super().__init__({"enableCallback": cb} if cb else {})
            self.name = name

        def push(self):
            log.append(("push", self.name))

        def release(self):
            log.append(("release", self.name))

    nsw = rng.randint(1, 3)
    sws, inputs = [], []
    for s in range(nsw):
        def mk(prefix, n):
            acts = []
            flat = []
            for i in range(n):
                cb = EnableCb() if rng.random() < 0.6 else None
                a = RecAction("%s%d" % (prefix, i), cb)
                flat.append((a.name, cb))
                if rng.random() < 0.6 and acts and isinstance(acts[-1], list):
                    acts[-1].append(a)
                elif rng.random() < 0.3:
                    acts.append([a])
                else:
                    acts.append(a)
            return acts, flat
        m = rig.SwModel()
        has_hold = rng.random() < 0.65
        acts, flat = mk("s%d.a" % s, rng.choice([0, 1, 1, 2, 3, 3, 6]))
        hacts, hflat = mk("s%d.h" % s, rng.choice([1, 1, 2, 3, 5])) if has_hold else ([], [])
        hold = rng.choice([None, 30, 150, 600, 601, 1000, 2500])
        rep = rng.choice([None, False, True, True]) if has_hold else rng.choice([None, True])
        d = {"assignment": {"model": m, "pixels": tuple(range(s * 3, s * 3 + 3))} if rng.random() < 0.5 else {"model": m}, "actions": acts}
        if has_hold or rng.random() < 0.3:
            d["actionsHold"] = hacts
        if hold is not None:
            d["holdTimeMillis"] = hold
        if rep is not None:
            d["holdRepeat"] = rep
        inputs.append(d)
        sws.append({"m": m, "flat": flat, "hflat": hflat, "hold": 600 if hold is None else hold, "rep": bool(rep),
                    "press": None, "fired": False, "last": None, "min": None})
    R = rig.Rig(W, inputs=inputs, ui=False, config={"updateInterval": rng.choice([50, 200, 1000])})
    sigs = []
    confsig = tuple((len(s["flat"]), len(s["hflat"]), s["hold"], s["rep"]) for s in sws)
    # safe initial distance
    R.tick(5)
    eq(log, [], "triggers without any press")
    nsteps = rng.randint(8, 60)
    for step in range(nsteps):
        # choose time step
        dt = rng.choice([1, 2, 5, 10, 20, 20, 50, 100, rng.randint(1, 300), rng.randint(200, 1500)])
        # change inputs
        for s in sws:
            if rng.random() < (0.35 if s["press"] is None else 0.25):
                s["m"].down = not s["m"].down
            if s["press"] is None:
                for _, cb in s["flat"] + s["hflat"]:
                    if cb and rng.random() < 0.1:
                        cb.on = not cb.on
        # avoid exact ties with a hold deadline
        now = W.clock.ms + dt
        for _ in range(6):
            for s in sws:
                if s["press"] is not None and s["last"] + s["hold"] == now:
                    now += 1
        dt = now - W.clock.ms
        mark = len(log)
        R.tick(dt)
        now = W.clock.ms
        got = log[mark:]
        want_any = []
        for i, s in enumerate(sws):
            mine = [g for g in got if g[1].startswith("s%d." % i)]
            en = [n for n, cb in s["flat"] if cb is None or cb.on]
            hen = [n for n, cb in s["hflat"] if cb is None or cb.on]
            holdseq = [(k, n) for n in hen for k in ("push", "release")]
            want = []
            down = s["m"].down
            hashold = bool(s["hflat"])
            if down and s["press"] is None:
                rec.n("presses")
                s["press"], s["last"], s["fired"] = now, now, False
                if not hashold:
                    want = [("push", n) for n in en]
                    rec.n("normal_triggers", len(en))
            elif s["press"] is not None:
                expired = hashold and now - s["last"] > s["hold"] and (s["rep"] or not s["fired"])
                if expired:
                    want = list(holdseq)
                    rec.n("hold_fires")
                    if s["fired"]:
                        rec.n("repeat_fires")
                    s["fired"], s["last"] = True, now
                    if not down:
                        rec.n("hold_at_release")
                if not down:
                    dur = now - s["press"]
                    if hashold:
                        if not s["fired"]:
                            want = [(k, n) for n in en for k in ("push", "release")]
                            rec.n("normal_triggers", len(en))
                    else:
                        want = [("release", n) for n in en]
                    sigs.append((i, s["fired"], expired, min(dur // max(1, s["hold"]), 5), len(want)))
                    s["press"] = None
            rec.ev("t", now, "switch", i, "down" if down else "up", "triggers", mine)
            if mine != want:
                raise Violation("switch %d (hold time %d, repeat %s, hold actions %s, %s at t=%d): triggers %r, expected %r" % (
                    i, s["hold"], s["rep"], hashold, "down" if down else "up", now, mine, want))
            want_any += want
        eq(len(got), len(want_any), "number of triggers in this step")
    rec.n("steps", nsteps)
    if any(x[4] or x[1] for x in sigs):
        rec.sig((confsig, tuple(sigs)))
