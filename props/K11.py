"""Tuner mode takes over and returns the controller cleanly."""
import random
from vlib import env, rig, kdev
from vlib.runner import Violation, check, eq
from props import K02

ID = "K11"
RULE = ("Half of the cases watch presses: switches with identifiable messages on push, release and hold (and tuner switches in all modes) and a device changing tuner mode at arbitrary moments between and inside of "
        "presses; every message is predicted from who got the push. The other half are random configurations going through device changes before, in and after tuner mode, compared to a freshly started "
        "controller. Signature = configuration and history; non-trivial when tuner mode was entered.")
CASES = {"quick": 2400, "thorough": 30000}
FLOORS = {"tuner_sessions": 1000, "consumed_presses": 400, "spanning_on": 100, "spanning_off": 250, "normal_presses": 700, "compared_fresh": 220, "screen_checks": 3500, "dark_checks": 130, "hold_actions": 12}
LEVEL_NOTE = ("Exploration: an ownership model of presses predicts every message around tuner mode, and fresh instances of the real controller predict screen, LEDs and labels after it.")
PUSH = {"ENABLE": 0, "LATCH": 20, "MOMENTARY": 30, "HOLD_MOMENTARY": 50}


def run_case(rng, rec, tier):
    if rng.random() < 0.65:
        presses(rng, rec)
    else:
        displays(rng, rec)


# ---------------------------------------------------------------------------------------------- presses
class Sw:
    owner = None        # None, "tuner", "both" or "actions" while pressed
    since = 0
    held = ()
    ended = False       # tuner mode ended since the push


def presses(rng, rec):
    W = env.World()
    km = W.imp("pyswitch.clients.kemper")
    el, ui = W.imp("pyswitch.ui.elements"), W.imp("pyswitch.ui.ui")
    CUSTOM = W.get("pyswitch.clients.local.actions.custom:CUSTOM_MESSAGE")
    TUNER = W.get("pyswitch.clients.kemper.actions.tuner:TUNER_MODE")
    both = rng.random() < 0.25
    strobe = rng.random() < 0.3
    sws, inputs = [], []
    led = 0
    colors = []
    for i in range(rng.randint(1, 4)):
        s = Sw()
        s.i = i
        s.m = rig.SwModel()
        n = rng.choice([0, 1, 3])
        s.pix = list(range(led, led + n))
        led += n
        s.tuner = rng.choice([None, None, "LATCH", "HOLD_MOMENTARY", "MOMENTARY", "ENABLE"]) if i else rng.choice([None, "LATCH", "HOLD_MOMENTARY"])
        s.rel = rng.random() < 0.6
        s.hold = not s.tuner and rng.random() < 0.6
        s.repeat = s.hold and rng.random() < 0.3
        col = rng.choice([(255, 0, 0), (10, 250, 20)])
        if s.tuner:
            acts = [TUNER(mode=PUSH[s.tuner])]
        else:
            acts = [CUSTOM(message=[0xB0, 60 + i, 1], message_release=[0xB0, 60 + i, 2] if s.rel else None, text="C", color=col)]
        inp = {"assignment": {"model": s.m, "pixels": tuple(s.pix)} if n else {"model": s.m}, "actions": acts}
        if s.hold:
            inp["actionsHold"] = [CUSTOM(message=[0xB0, 60 + i, 3], message_release=[0xB0, 60 + i, 4] if s.rel else None, text="H")]
            inp["holdTimeMillis"] = 400
            inp["holdRepeat"] = s.repeat
        inputs.append(inp)
        sws.append(s)
    root = ui.DisplayElement(bounds=ui.DisplayBounds(0, 0, 240, 240), children=[rig.label(W, text="Main")])
    kw = {}
    if both:
        kw["process_overridden_actions"] = True
    splash = km.TunerDisplayCallback(splash_default=root, strobe=strobe, **kw)
    R = rig.Rig(W, inputs=inputs, splash=splash, config={"updateInterval": 200}, protocol=km.KemperBidirectionalProtocol(30) if rng.random() < 0.5 else None)
    main = R.display.root
    dev = kdev.Device(W, rng.random(), R.inport, R.port, rig=3)
    dev.lease_until = dev.next_sense = 10 ** 12
    dev.num[(0x7f, 0x7e)] = 0
    lat = rng.choice([0, 0, 30])
    dev.latency = (lambda: lat) if lat else None
    hist = []

    def run(ms):
        t = 0
        while t < ms:
            W.clock.advance(5)
            t += 5
            dev.update()
            R.c.tick()

    def collect():
        out = []
        for t, m in R.sent():
            if m[0] == 0xF0:
                continue
            s = [x for x in sws if x.hold and m[0] == 0xB0 and m[1] == 60 + x.i and m[2] in (3, 4)]
            if s:
                check(s[0].owner in ("actions", "both"), lambda: "hold action of switch %d triggered, owned by %r (%r)" % (s[0].i, s[0].owner, hist[-4:]))
                s[0].held.append(m[2])
            else:
                out.append(m)
        return out

    def screen(why):
        rec.n("screen_checks")
        eq(R.display.root is not main, bool(dev.num[(0x7f, 0x7e)] == 1), "%s: tuner screen shown" % why)

    run(700)
    # Make the mode known
    dev.send(dev.msg_num((0x7f, 0x7e)))
    run(60)
    collect()
    screen("after start")
    tstate = {s.i: False for s in sws}      # state of the tuner actions
    dark = False
    spans = set()
    for step in range(rng.randint(6, 18)):
        t_on = dev.num[(0x7f, 0x7e)] == 1
        down = [s for s in sws if s.owner]
        k = rng.random()
        if k < 0.25 and not any(s in spans for s in down):
            # the device changes tuner mode by itself. A press which started before is part of one change at most
            dev.set_tuner(0 if t_on else 1)
            if not t_on:
                rec.n("tuner_sessions")
            for s in down:
                spans.add(s)
                s.ended |= t_on
                rec.n("spanning_off" if t_on else "spanning_on")
            run(60 + lat)
            eq(collect(), [], "messages when the device changes tuner mode (%r)" % hist[-4:])
            for s in sws:
                if s.tuner:
                    tstate[s.i] = not t_on
            hist.append(("device tuner", not t_on, [s.i for s in down]))
            screen("after %r" % hist[-3:])
            if not t_on and not both and not strobe and not down:
                for s in sws:
                    if not s.tuner:
                        rec.n("dark_checks")
                        check(all(tuple(R.leds[p]) == (0, 0, 0) for p in s.pix), lambda: "LEDs of switch %d are not dark in tuner mode: %r" % (s.i, [R.leds[p] for p in s.pix]))
        elif k < 0.62:
            up = [s for s in sws if not s.owner]
            if not up or (down and rng.random() < 0.6):
                continue
            s = rng.choice(up)
            s.owner = ("both" if both else "tuner") if t_on else "actions"
            s.since, s.held, s.ended = W.clock.ms, [], False
            s.m.down = True
            want = []
            if s.owner == "tuner":
                rec.n("consumed_presses")
            else:
                rec.n("normal_presses")
                if s.tuner:
                    want = tuner_push(s, tstate)
                elif not s.hold:
                    want = [rig.cc(60 + s.i, 1)]
            run(10)
            hist.append(("push", s.i, s.owner, s.tuner))
            eq(collect(), want, "messages of the push (%r)" % hist[-4:])
            run(2 * lat + 20)
            after_command(want, sws, tstate, rec, spans)
            eq(collect(), [], "messages after the push (%r)" % hist[-4:])
            screen("after %r" % hist[-3:])
        elif k < 0.75:
            run(rng.choice([50, 450, 700]))
            eq(collect(), [], "messages while switches are held (%r)" % hist[-4:])
            hist.append(("wait",))
        elif down:
            s = rng.choice(down)
            held = W.clock.ms - s.since
            if held % 400 > 360 or held % 400 < 25 or 560 < held < 660:
                continue
            owner = s.owner
            want = []
            if owner in ("tuner", "both") and t_on:
                want.append(rig.cc(31, 0))
            tail = []
            if owner in ("actions", "both"):
                if s.tuner:
                    tail = tuner_release(s, tstate, held)
                elif s.hold:
                    if held < 400:
                        tail = [rig.cc(60 + s.i, 1)] + ([rig.cc(60 + s.i, 2)] if s.rel else [])
                else:
                    tail = [rig.cc(60 + s.i, 2)] if s.rel else []
            s.m.down = False
            hist.append(("release", s.i, owner, held))
            run(10)
            got = collect()
            s.owner = None
            if s.hold and owner in ("actions", "both"):
                one = [3, 4] if s.rel else [3]
                lo = held // 400 if s.repeat else int(held > 400)
                check(any(s.held == one * k for k in ((lo, lo + 1) if s.repeat else (lo,))), lambda: "hold messages after holding %d ms: %r (repeat %r, %r)" % (held, s.held, s.repeat, hist[-4:]))
                rec.n("hold_actions", lo)
            # the tuner switches of a controller which processes both end tuner mode anyway
            if owner == "both" and s.tuner:
                check([m for m in got if m[1] == 31][-1:] in ([rig.cc(31, 0)], []) or tail, lambda: "releasing switch %d in tuner mode sent %r" % (s.i, got))
            elif s.ended and want and got == tail:
                pass        # tuner mode ended and started again in the meantime: the release may end it or not
            else:
                eq(got, want + tail, "messages of the release (%r)" % hist[-4:])
            spans.discard(s)
            run(2 * lat + 20)
            after_command(got, sws, tstate, rec, spans)
            eq(collect(), [], "messages after the release (%r)" % hist[-4:])
            screen("after %r" % hist[-3:])
        rec.ev(W.clock.ms, hist[-1] if hist else None)
    # all released: nothing is stuck
    for s in sws:
        s.m.down = False
    run(60)
    collect()
    for s in sws:
        s.owner = None
    dev.set_tuner(0)
    run(300)
    collect()
    run(1500)
    eq(collect(), [], "messages without any switch pressed (%r)" % hist[-6:])
    screen("at the end")
    for s in sws:
        if s.tuner:
            continue
        s.m.down, s.owner, s.held = True, "actions", []
        run(20)
        s.m.down = False
        run(20)
        eq(collect(), [rig.cc(60 + s.i, 1)] + ([rig.cc(60 + s.i, 2)] if s.rel else []), "messages of a press after everything (%r)" % hist[-6:])
    rec.sig((both, strobe, lat, repr(hist)))


def tuner_push(s, tstate):
    st = tstate[s.i]
    if s.tuner in ("LATCH", "HOLD_MOMENTARY"):
        new = not st
    else:
        new = True
    if new == st:
        return []
    tstate[s.i] = new
    return [rig.cc(31, int(new))]


def tuner_release(s, tstate, held):
    st = tstate[s.i]
    if s.tuner == "MOMENTARY" and st:
        tstate[s.i] = False
        return [rig.cc(31, 0)]
    if s.tuner == "HOLD_MOMENTARY" and held > 600:
        tstate[s.i] = not st
        return [rig.cc(31, int(not st))]
    return []


def after_command(msgs, sws, tstate, rec, spans):
    """All tuner actions show what the device is in"""
    for m in msgs:
        if m[1] == 31:
            if m[2]:
                rec.n("tuner_sessions")
            for s in sws:
                s.ended |= not m[2]
                if s.owner and not s.tuner:
                    spans.add(s)
                if s.tuner:
                    tstate[s.i] = bool(m[2])


# ---------------------------------------------------------------------------------------------- displays
def displays(rng, rec):
    seed, dseed = rng.random(), rng.random()
    dt = rng.choice([10, 20])
    W, S, dev = K02.start(seed, True, dseed, rng.randrange(625))
    if rng.random() < 0.5:
        dev.latency = lambda: rng.choice([0, 1, 5, 30])
    dev.num[(0x7f, 0x7e)] = 0
    K02.run_ms(S, dev, 1500, dt)
    hist = []
    tuner = "TunerDisplay" in type(S.splash).__name__

    def change():
        k = rng.randrange(8)
        if k <= 1:
            dev.load(rng.randrange(625))
        elif k == 2:
            dev.set((rng.choice(kdev.SLOTS), 0), rng.choice(kdev.TYPES))
        elif k == 3:
            dev.set((4, 1), rng.randrange(16384))
        elif k == 4:
            dev.set((5, rng.choice([1, 6, 11, 16, 21, 26, 36, 41])), rng.choice([0, 1]))
        elif k == 5:
            dev.set((rng.choice([0x0a, 0x0c]), 2), rng.choice([0, 1]))
        else:
            dev.set((rng.choice(kdev.SLOTS), 3), rng.choice([0, 1]))
        hist.append(("chg", k, dev.rig))
        K02.run_ms(S, dev, rng.choice([dt, 200]), dt)

    for _ in range(rng.choice([1, 1, 2])):
        for _ in range(rng.choice([0, 1, 3])):
            change()
        K02.run_ms(S, dev, 500, dt)
        dev.set_tuner(1)
        rec.n("tuner_sessions")
        K02.run_ms(S, dev, rng.choice([100, 300]), dt)
        for _ in range(rng.choice([0, 0, 1, 3])):
            k = rng.random()
            if k < 0.5:
                change()
            else:
                dev.num[(0x7d, 0x54)] = rng.randrange(128)
                dev.report((0x7d, 0x54))
                dev.num[(0x7c, 0x0f)] = rng.randrange(16384)
                dev.report((0x7c, 0x0f))
                K02.run_ms(S, dev, 50, dt)
        if dev.leased:
            rec.n("screen_checks")
            eq(S.R.display.root is not S.first_root, tuner, "tuner screen shown in tuner mode")
        if tuner and S.switches and rng.random() < 0.6 and dev.num[(0x7f, 0x7e)]:
            m = rng.choice(S.switches)
            S.R.sent()
            m.down = True
            K02.run_ms(S, dev, rng.choice([dt, 900]), dt)
            m.down = False
            K02.run_ms(S, dev, 100, dt)
            if dev.leased:
                rec.n("consumed_presses")
                eq([x for t, x in S.R.sent() if x[0] != 0xF0], [rig.cc(31, 0)], "messages of a press in tuner mode")
        else:
            dev.set_tuner(0)
            if rng.random() < 0.5:
                change()
        dev.set_tuner(0)
        K02.run_ms(S, dev, 3500, dt)
        rec.ev(W.clock.ms, hist[-1] if hist else None)
    if not dev.leased:
        return
    final = K02.view(S)
    state = (dict(dev.num), dict(dev.str), dev.rig)
    desc = S.desc
    W, S, dev = K02.start(seed, True, dseed, state[2])
    dev.num, dev.str = dict(state[0]), dict(state[1])
    K02.run_ms(S, dev, 9500, dt)
    want = K02.view(S)
    rec.n("compared_fresh")
    if K02.diff(final, want):
        raise Violation("after tuner mode: %s; actions %r, history %r" % (K02.diff(final, want), desc, hist))
    rec.sig((tuple(desc), repr(hist), repr(final)))
