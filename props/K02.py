"""Losing and regaining the device: differential monitor against freshly started controllers."""
import random
from vlib import env, rig, sink, kdev
from vlib.runner import Violation, check, eq

ID = "K02"
KINDS = ["effect", "effect", "effect_ext", "fixed", "rig_select", "rig_select", "bank_select", "bank_up", "bank_down", "rig_up", "rig_down", "binary", "effect_button",
         "tuner", "text", "boost"]
RULE = ("A case is a random configuration of actions and labels bound to device values, a simulated device, and a history of device changes and presses around one or two outages. "
        "What LEDs, labels and screen show during the outage must equal a controller which never saw a device; after the device is back it must equal a controller freshly "
        "started with that device. A fifth of the cases uses all kinds of actions (also with states of their own) and only demands that nothing fails and nothing is sent without input. Signature = configuration and history; non-trivial when the displays differed between the phases.")
CASES = {"quick": 900, "thorough": 12000}
FLOORS = {"outages": 900, "offline_compared": 280, "online_compared": 650, "device_changes": 1500, "presses": 700, "shown_differs_offline": 220, "presses_while_lost": 250, "wild": 100}
LEVEL_NOTE = ("Exploration: differential oracle - fresh instances of the real controller (never connected / newly connected to a device in the same state) predict what must be shown offline and "
              "after reconnecting; commands sent while offline are watched on the wire. Device behaviour is a simulation written from the protocol description.")


def build(seed, W, wild=False):
    r = random.Random(seed)
    if wild:
        return sink.Sink(W, r, nsw=r.choice([2, 5]), cfg={"updateInterval": r.choice([100, 200]), "maxRequestLifetimeMillis": r.choice([1000, 2000])})
    # Sometimes many actions listen to the same few parameters
    kinds = KINDS if r.random() < 0.8 else r.sample(KINDS, 2)
    return sink.Sink(W, r, nsw=r.choice([1, 2, 4, 6]) if kinds is KINDS else 10, kinds=kinds, pages=False, hold=False, nenc=0, npot=0, internal=False, share=False,
                     cfg={"updateInterval": r.choice([100, 200]), "maxRequestLifetimeMillis": r.choice([1000, 2000])})


def view(S):
    o = S.observe()
    for i, sw in enumerate(S.R.c.inputs):
        # LEDs which no action uses have no defined look
        if hasattr(sw, "pixels") and not any(a.uses_switch_leds for a in sw.actions):
            for p in sw.pixels:
                o["leds"][p] = (0, 0, 0)
    o["root"] = S.R.display.root is not None and "tuner" if S.R.c and S.R.display.root is not S.first_root else "main"
    return o


def run_ms(S, dev, ms, dt):
    t = 0
    while t < ms:
        S.W.clock.advance(dt)
        t += dt
        if dev:
            dev.update()
        S.R.c.tick()


def start(seed, with_dev, dseed, rigno, wild=False):
    W = env.World()
    S = build(seed, W, wild)
    dev = kdev.Device(W, dseed, S.R.inport, S.R.port, rig=rigno) if with_dev else None
    S.first_root = S.R.display.root
    return W, S, dev


def run_case(rng, rec, tier):
    seed, dseed = rng.random(), rng.random()
    rigno = rng.randrange(625)
    dt = rng.choice([10, 20, 40])
    wild = rng.random() < 0.2       # everything there is, also actions with a state of their own: must keep running and keep quiet
    W, S, dev = start(seed, True, dseed, rigno, wild)
    first = S.R.display.root
    if rng.random() < 0.5:
        dev.latency = lambda: rng.choice([0, 1, 5, 30])
    run_ms(S, dev, 1500, dt)
    hist = []
    offline = None

    def presses(n):
        for _ in range(n):
            m = rng.choice(S.switches)
            m.down = True
            run_ms(S, dev, rng.choice([dt, 100, 700]), dt)
            m.down = False
            run_ms(S, dev, rng.choice([dt, 100]), dt)
            rec.n("presses")

    def changes(n):
        for _ in range(n):
            k = rng.randrange(8)
            if k <= 1:
                dev.load(rng.randrange(625))
            elif k == 2:
                dev.set_tuner(rng.choice([0, 1]))
            elif k == 3:
                dev.set((rng.choice(kdev.SLOTS), 0), rng.choice(kdev.TYPES))
            elif k == 4:
                dev.set((4, 1), rng.randrange(16384))
            elif k == 5:
                dev.set((5, rng.choice([1, 6, 11, 16, 21, 26, 36, 41])), rng.choice([0, 1]))
            elif k == 6:
                dev.set((rng.choice([0x0a, 0x0c]), 2), rng.choice([0, 1]))
            else:
                dev.set((rng.choice(kdev.SLOTS), 3), rng.choice([0, 1]))
            rec.n("device_changes")
            hist.append(("chg", k, dev.rig))
            run_ms(S, dev, rng.choice([dt, 200]), dt)

    changes(rng.choice([0, 1, 4]))
    presses(rng.choice([0, 1, 2]))
    run_ms(S, dev, 600, dt)
    for o in range(rng.choice([1, 1, 2])):
        before = view(S)
        dev.link = False
        dev.pipe = []
        rec.n("outages")
        T = rng.choice([800, 3000, 9000, 14000])
        pressed = 0
        if rng.random() < 0.5 and T > 1000:
            changes(rng.choice([1, 3]))
        S.R.sent()
        if 1000 < T < 9000 and rng.random() < 0.5:
            pressed = 1
            presses(1)
        S.R.sent()
        run_ms(S, dev, T, dt)
        for t, m in S.R.sent():
            # requests and connection requests only
            check(m[0] == 0xF0 and m[6] in (0x41, 0x43, 0x47, 0x7e), lambda: "command %s sent at %d while the device was lost, without user input" % (m.hex(), t))
        if T >= 9000 and not pressed and before["root"] == "main" and not dev.num[(0x7f, 0x7e)]:
            offline = (W.clock.ms, view(S), before)
        if T >= 3000 and rng.random() < 0.5:
            presses(rng.choice([1, 4]))
            for e in S.encs if wild else []:
                e.p += rng.choice([-40, -1, 3])
            S.R.sent()
            rec.n("presses_while_lost")
            run_ms(S, dev, 200, dt)
        hist.append(("outage", T, pressed))
        if T > 1000:
            changes(rng.choice([0, 1]))
        dev.link = True
        if rng.random() < 0.3:
            changes(1)
        run_ms(S, dev, 9500, dt)
        if dev.num[(0x7f, 0x7e)] == 1:   # what the LEDs show in tuner mode is for K11
            dev.set_tuner(0)
            run_ms(S, dev, 1000, dt)
        rec.ev(W.clock.ms, hist[-1])
    final = view(S)
    if wild:
        rec.n("wild")
        run_ms(S, dev, 1000, dt)
        presses(6)
        rec.sig((tuple(S.desc), repr(hist)))
        return
    state = (dict(dev.num), dict(dev.str), dev.rig)
    desc = S.desc
    # the same configuration, newly connected to the device in this state
    W, S, dev = start(seed, True, dseed, state[2])
    dev.num, dev.str = dict(state[0]), dict(state[1])
    run_ms(S, dev, 9500, dt)
    want = view(S)
    rec.n("online_compared")
    if diff(final, want):
        raise Violation("after reconnecting: %s; actions %r, history %r" % (diff(final, want), desc, hist))
    if offline:
        # the same configuration which was connected to a device with other content: nothing of the former device may be left
        W, S, dev = start(seed, True, rng.random(), (state[2] + 77) % 625)
        run_ms(S, dev, 1500, dt)
        dev.link = False
        run_ms(S, dev, 14000, dt)
        want = view(S)
        rec.n("offline_compared")
        rec.n("shown_differs_offline", int(offline[2] != want))
        if diff(offline[1], want):
            raise Violation("while the device is lost: %s; actions %r, history %r" % (diff(offline[1], want), desc, hist))
    rec.sig((tuple(desc), repr(hist), repr(final)))


def diff(a, b):
    return "; ".join("%s shows %r, expected %r" % (k, a[k], b[k]) for k in a if not same(k, a[k], b[k]))


def same(k, a, b):
    """Brightness is kept in single precision: a dimmed LED value may come out one step lower"""
    if k != "leds":
        return a == b
    return len(a) == len(b) and all(abs(x - y) <= 1 for p, q in zip(a, b) for x, y in zip(p, q))
