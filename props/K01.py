"""Bidirectional link: timed monitor over beacons, life signs and the state dot."""
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "K01"
RULE = ("A case is a controller with the bidirectional protocol (random lease, tuner option, update interval, displays and tick jitter) and a random schedule of life sign phases, drop-outs, "
        "near-miss messages and unrelated traffic; non-trivial when the link was established; signature = configuration plus schedule of phases.")
CASES = {"quick": 1200, "thorough": 16000}
FLOORS = {"init_beacons": 2000, "renewals": 800, "established": 900, "lost": 400, "near_misses": 1000, "dot_checks": 50000}
LEVEL_NOTE = ("Exploration: a timed monitor checks every beacon the real controller writes (bytes and time) and the colour of the state dot after every tick against the life signs delivered; "
              "tolerance is one update interval plus two ticks (twice that for going offline). Gaps of life signs inside the tolerance around the sensing timeout are not generated.")

SENS = 1500
INIT = 5000


def beacon(init, tuner, lease):
    return rig.sysex(b"\x00\x20\x33", bytes([2, 0x7f, 0x7e, 0, 0x40, 2, (1 if init else 0) | 2 | (32 if tuner else 0), lease // 2]))


def life(r):
    return rig.sysex(b"\x00\x20\x33", bytes([r.choice([0, 0, 2]), r.choice([0, 0, 127]), 0x7e, 0, 0x7f]) + r.choice([b"", b"\x01", bytes([r.randrange(128)])]))


def miss(r):
    return r.choice([
        rig.sysex(b"\x00\x20\x33", bytes([0, 0, 0x7e, 0, 0x7e, 1])), rig.sysex(b"\x00\x20\x33", bytes([0, 0, 0x7f, 0, 0x7f, 1])),
        rig.sysex(b"\x00\x20\x33", bytes([0, 0, 0x7e, 1, 0x7f, 1])), rig.sysex(b"\x00\x20\x34", bytes([0, 0, 0x7e, 0, 0x7f, 1])),
        rig.sysex(b"\x00\x20\x33", bytes([0, 0, 0x7e])), rig.sysex(b"\x00\x20\x33", bytes([0, 0, 0x7e, 0])), rig.sysex(b"\x00\x20\x33", b""),
        rig.sysex(b"\x00\x20\x33", bytes([0x7e, 0, 0x7f])), rig.sysex(b"\x7e", bytes([0, 0, 0x7e, 0, 0x7f])), rig.cc(0x7e, 0), bytes([0xFE]),
        rig.sysex(b"\x00\x20\x33", bytes([0, 0, 1, 0, 0x7f, 0x7e, 0, 0]))])


def run_case(rng, rec, tier):
    W = env.World()
    km = W.imp("pyswitch.clients.kemper")
    el = W.imp("pyswitch.ui.elements")
    ui = W.imp("pyswitch.ui.ui")
    lease = rng.choice([2, 4, 10, 20, 30, 60, 254])
    tuner = rng.random() < 0.5
    upd = rng.choice([20, 100, 200, 200, 400])
    kw = {} if tuner and rng.random() < 0.5 else {"tuner_mode": tuner}
    proto = km.KemperBidirectionalProtocol(lease, **kw)
    dot = el.BidirectionalProtocolState(ui.DisplayBounds(0, 0, 240, 240))
    splash = W.get("pyswitch.clients.local.callbacks.splashes:SplashesCallback")(ui.DisplayElement(bounds=ui.DisplayBounds(0, 0, 240, 240), children=[dot]))
    R = rig.Rig(W, protocol=proto, splash=splash, config={"updateInterval": upd})
    GREEN, RED = (0, 255, 0), (255, 0, 0)
    dmax = rng.choice([3, 15, 30, 60]) if upd > 60 else rng.choice([3, 5, 15])
    tol = upd + 2 * dmax + 2
    W.clock.ms += rng.choice([0, 0, 10, 3000, 20000])

    def dotcol():
        for x, y, e in rig.find_screen(R.display.root):
            if hasattr(e, "fill"):
                return tuple(e.fill)

    t0 = W.clock.ms
    S = {"last_init": None, "run_since": None, "repeat": False, "was_online": False, "last_life": None, "last_renew": None, "off_since": t0 - 1}
    reds = set()

    def online(now):
        """True/False if certain, else None"""
        if S["last_life"] is None:
            return False
        g = now - S["last_life"]
        if g <= SENS:
            return True
        if g > SENS + tol:
            return False
        return None

    def observe():
        now = W.clock.ms
        # going offline is decided by silence only
        on = online(now)
        if on is False and S["run_since"] is not None:
            S["run_since"] = None
            S["off_since"] = S["last_life"] + SENS
            rec.n("lost")
        for t, m in R.sent():
            if m == beacon(True, tuner, lease):
                rec.n("init_beacons")
                if online(t) is True and S["repeat"] and S["run_since"] is not None:
                    S["repeat"] = False         # the one additional request after getting back online
                    rec.n("repeated_inits")
                else:
                    check(online(t) is not True or S["last_life"] == t, lambda: "initial connection request at %d although the last life sign came at %r" % (t, S["last_life"]))
                if S["last_init"] is not None:
                    check(t - S["last_init"] >= INIT, lambda: "initial connection requests at %d and %d, closer than %d ms" % (S["last_init"], t, INIT))
                S["last_init"] = t
            elif m == beacon(False, tuner, lease):
                rec.n("renewals")
                check(S["run_since"] is not None, lambda: "lease renewed at %d while offline (last life sign %r)" % (t, S["last_life"]))
                ref = S["last_renew"] if S["last_renew"] is not None else S["run_since"]
                check(t - ref >= lease * 500, lambda: "lease renewed at %d, only %d ms after the last renewal (half lease is %d ms)" % (t, t - ref, lease * 500))
                S["last_renew"] = t
            else:
                raise Violation("message sent on its own: %s" % m.hex())
        # liveness of the requests
        if online(now) is False:
            base = S["off_since"] + tol if S["last_init"] is None else max(S["off_since"] + 2 * tol, S["last_init"] + INIT + tol)
            check(now <= base, lambda: "offline since %d, last initial request %r, none until %d" % (S["off_since"], S["last_init"], now))
        elif on and S["run_since"] is not None:
            ref = S["last_renew"] if S["last_renew"] is not None else S["run_since"]
            check(now <= ref + lease * 500 + 2 * tol, lambda: "online since %d, last renewal %r, half lease %d ms: no renewal until %d" % (S["run_since"], S["last_renew"], lease * 500, now))
            if S["repeat"]:
                check(now <= max(S["run_since"], S["last_init"] + INIT) + 2 * tol, lambda: "back online since %d, but the state was not requested again until %d (last initial request %d)" % (S["run_since"], now, S["last_init"]))
        # dot
        c = dotcol()
        rec.n("dot_checks")
        if on is False and now > (S["last_life"] + SENS + 2 * tol if S["last_life"] is not None else t0 + tol):
            eq(c, RED, "state dot %d ms after the last life sign" % (now - (S["last_life"] or t0)))
        elif on and S["run_since"] is not None and now > S["run_since"] + tol:
            eq(c, GREEN, "state dot %d ms after the last life sign (online since %d)" % (now - S["last_life"], S["run_since"]))

    def step():
        W.clock.advance(rng.randint(1, dmax))
        R.tick()
        observe()

    def feed_life():
        if online(W.clock.ms) is None:      # not in the uncertain window
            return
        observe()
        # before the first request since being offline nobody listens
        known = S["run_since"] is not None or (S["last_init"] is not None and S["last_init"] > S["off_since"])
        R.feed(life(rng))
        R.tick()
        now = W.clock.ms
        if not known:
            observe()
            return
        if S["run_since"] is None:
            S["run_since"], S["last_renew"] = now, None
            S["repeat"] = S["was_online"]
            S["was_online"] = True
            rec.n("established")
        S["last_life"] = now
        observe()

    sig = []
    # life signs before any request are ignored
    for ph in range(rng.randint(2, 6)):
        kind = rng.choice(["alive", "alive", "alive", "silent", "short", "miss", "flood"])
        T = rng.choice([700, 3000, 8000]) if kind != "alive" else rng.choice([2000, 6000, 3 * lease * 500 if lease <= 30 else 9000])
        if kind == "alive" and lease > 30 and rng.random() < 0.25:
            T = int(lease * 500 * 1.1)
        sig.append((kind, T))
        end = W.clock.ms + T
        nxt = W.clock.ms
        while W.clock.ms < end:
            if kind == "alive" and W.clock.ms >= nxt:
                if online(W.clock.ms) is None:
                    step()
                    continue
                feed_life()
                nxt = W.clock.ms + rng.choice([500, 500, 200, 900, SENS - 2 * dmax - 5])
            elif kind == "short" and rng.random() < 0.002:
                feed_life()
            elif kind == "miss" and rng.random() < 0.05:
                R.feed(miss(rng))
                rec.n("near_misses")
            elif kind == "flood" and rng.random() < 0.5:
                for _ in range(rng.choice([1, 5, 12])):
                    R.feed(rig.cc(rng.choice([1, 2, 64]), rng.randrange(128)))
            step()
        while R.inport.inbuf:
            R.tick()
        rec.ev(W.clock.ms, kind, T, dict(S))
    if any(k == "alive" for k, _ in sig):
        rec.sig((lease, tuner, upd, dmax, tuple(sig)))
