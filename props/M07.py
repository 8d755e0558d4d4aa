"""Arbitrary incoming MIDI: crash freedom of the real application and non-interference of foreign traffic (twin runs)."""
import random
from vlib import env, rig, sink
from vlib.runner import Violation, check, eq

ID = "M07"
RULE = ("A case is a random configuration over all actions, displays, pedals and encoders the firmware offers, with or without the bidirectional protocol, and a random script of "
        "user input, device traffic and time. Half of the cases feed malformed, truncated and random bytes in arbitrary chunks and watch that no tick fails; the other half run the "
        "script twice, the second time with foreign messages injected, and compare everything observable after every step. Signature = configuration and script.")
CASES = {"quick": 2400, "thorough": 40000}
FLOORS = {"noise_messages": 8000, "garbage_bytes": 8000, "compared_steps": 9000, "regular_messages": 9000, "led_writes": 500, "sent_messages": 5000}
LEVEL_NOTE = ("Exploration with two oracles: (a) no exception leaves tick() and tick() keeps returning True while random/mutated byte streams arrive; (b) non-interference by twin "
              "runs: MIDI sent (with time), LEDs, labels and visible screen are identical with and without foreign messages at every step. System exclusive messages split over several "
              "reads are dropped by the device's MIDI library and are therefore only part of (a).")

KM = b"\x00\x20\x33"


def noise(r):
    """A message which belongs to no parameter of any configuration of the generator."""
    k = r.randrange(13)
    b = lambda: r.randrange(128)
    if k == 0:
        c = r.choice([x for x in range(128) if x not in (32, 35)])
        return bytes([0xB0 | r.randrange(16), c, b()])
    if k == 1:
        return bytes([r.choice([0x80, 0x90]) | r.randrange(16), b(), b()])
    if k == 2:
        return bytes([0xE0 | r.randrange(16), b(), b()])
    if k == 3:
        return bytes([r.choice([0xA0]) | r.randrange(16), b(), b()])
    if k == 4:
        return bytes([0xD0 | r.randrange(16), b()])
    if k == 5:      # foreign manufacturer, possibly with a payload which would match
        man = r.choice([b"\x00\x20\x34", b"\x00\x21\x33", b"\x01\x20\x33", b"\x7e", b"\x41", b"\x33"])
        pay = sink.known_message(r)[0]
        pay = pay[4:-1] if pay[0] == 0xF0 and len(pay) > 5 else bytes(b() for _ in range(r.randrange(12)))
        return b"\xF0" + man + pay + b"\xF7"
    if k == 6:      # unused addresses of the device
        page, addr = r.choice([(0x11, 5), (9, 9), (0x7f, 0x7d), (0x7d, 0x53), (4, 9), (0x3b, 3), (0, 2), (0x32, 50), (0x7c, 0x10), (5, 99), (0x7e, 2)])
        return sink.kemper(r.choice([1, 3, 2, 6]), page, addr, [0, b()])
    if k == 7:      # known address, but no value message (requests, renderings, acknowledgements)
        page, addr = r.choice([(0x32, 3), (0x7f, 0x7e), (4, 1), (0x7c, 0), (0x32, 0)])
        return sink.kemper(r.choice([0x41, 0x42, 0x43, 0x47, 0x7c]), page, addr, [0, b()])
    if k == 8:      # too short for anything
        return b"\xF0" + KM[:r.randrange(4)] + b"\xF7"
    if k == 9:
        return b"\xF0" + KM + bytes([0, 0, 1, 0, 0x11][:r.randrange(5)]) + b"\xF7"
    if k == 10:
        return bytes([r.choice([0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF, 0xF6])])
    if k == 11:     # data bytes without status
        return bytes(b() for _ in range(r.randrange(1, 9)))
    return b"\xF0" + r.choice([b"\x00\x20\x34", b"\x44"]) + bytes(b() for _ in range(r.choice([40, 80, 95, 130, 300]))) + b"\xF7"


def script(r, n):
    out = []
    for _ in range(n):
        k = r.randrange(8)
        if k <= 1:
            out.append(("sw", r.random(), r.choice([0, 5, 50])))
        elif k == 2:
            out.append(("pot", r.randrange(65536)))
        elif k == 3:
            out.append(("enc", r.choice([-3, -1, 1, 2])))
        elif k == 4:
            out.append(("time", r.choice([10, 100, 210, 450, 700, 1600, 2500])))
        else:
            out.append(("dev", [m for _ in range(r.choice([1, 1, 2, 5])) for m in sink.known_message(r)]))
    return out


def apply(S, st, rec=None):
    R = S.R
    k = st[0]
    if k == "sw" and S.switches:
        m = S.switches[int(st[1] * len(S.switches))]
        m.down = not m.down
        R.tick(st[2])
        R.tick(1)
    elif k == "pot" and S.pots:
        S.pots[0].v = st[1]
        R.tick(3)
    elif k == "enc" and S.encs:
        S.encs[0].p += st[1]
        R.tick(3)
    elif k == "time":
        R.run(st[1], 40)
    elif k == "dev":
        for m in st[1]:
            R.feed(m)
        if rec:
            rec.n("regular_messages", len(st[1]))
        R.tick(1, 3)


def build(seed):
    r = random.Random(seed)
    W = env.World()
    return sink.Sink(W, r, nsw=r.choice([1, 3, 5]), protocol=r.random() < 0.6, cfg={"updateInterval": r.choice([200, 200, 50]), "clearBuffers": r.random() < 0.5})


def twin(rng, rec, tier):
    seed = rng.random()
    steps = script(rng, rng.choice([10, 25]))
    noises = []
    for _ in steps:
        noises.append([noise(rng) for _ in range(rng.choice([0, 1, 1, 3, 10]))])
    runs = []
    for mode in (0, 1):
        S = build(seed)
        R = S.R
        R.tick(5)
        log = []
        for st, ns in zip(steps, noises):
            if mode:
                for m in ns:
                    R.feed(m)
                rec.n("noise_messages", len(ns))
            R.tick(0, 8)
            for _ in range(60):
                if not R.inport.inbuf:
                    break
                R.tick(0)
            if mode and R.inport.inbuf:
                raise Violation("messages are not taken from the port any more")
            a = (R.sent(), S.observe())
            apply(S, st, None if mode else rec)
            log.append((a, (R.sent(), S.observe())))
        runs.append((S, log))
    S = runs[0][0]
    for i, (a, b) in enumerate(zip(runs[0][1], runs[1][1])):
        for when, x, y in (("after foreign messages", a[0], b[0]), ("after the next regular step", a[1], b[1])):
            rec.n("compared_steps")
            if x != y:
                d = ["messages sent: without noise %r, with noise %r" % ([(t, m.hex()) for t, m in x[0]], [(t, m.hex()) for t, m in y[0]])] if x[0] != y[0] else []
                d += ["%s: without noise %r, with noise %r" % (k, x[1][k], y[1][k]) for k in x[1] if x[1][k] != y[1][k]]
                raise Violation("step %d (%s) %r, noise %r, actions %r: %s" % (i, when, steps[i], [m.hex() for m in noises[i]], S.desc, "; ".join(d)))
        rec.n("sent_messages", len(a[0][0]) + len(a[1][0]))
        rec.n("led_writes", int(i > 0 and a[1][1]["leds"] != runs[0][1][i - 1][1][1]["leds"]))
        rec.ev(steps[i], [m.hex() for m in noises[i]], [m.hex() for _, m in a[1][0]])
    rec.sig((tuple(S.desc), repr(steps)))
    rec.state(repr(runs[0][1][-1][1][1]))


def garbage(rng):
    k = rng.randrange(7)
    if k == 0:
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 40, 200])))
    m = bytearray(b"".join(sink.known_message(rng)))
    if k == 1 and m:
        for _ in range(rng.choice([1, 1, 3])):
            m[rng.randrange(len(m))] = rng.randrange(256)
    elif k == 2:
        del m[rng.randrange(len(m)):]
    elif k == 3:
        m.insert(rng.randrange(len(m)), rng.randrange(256))
    elif k == 4:
        m = bytearray(sink.kemper(rng.choice([1, 2, 3, 6, 7]), rng.choice([0, 1, 4, 5, 0x32, 0x7c, 0x7d, 0x7e, 0x7f]), rng.randrange(128), [rng.randrange(128) for _ in range(rng.choice([0, 1, 2, 2, 3, 30]))]))
    elif k == 5:
        m = bytearray(noise(rng))
    else:
        m = bytearray([rng.choice([0xB0, 0xC0, 0xF0, 0xF7, 0x90, 0xB0 | rng.randrange(16)])]) + bytearray(rng.randrange(128) for _ in range(rng.randrange(3)))
    return bytes(m)


def crash(rng, rec, tier):
    S = build(rng.random())
    R = S.R
    mr = rng.choice([None, 1, 3, 7, 30])
    if mr:
        R.inport.max_chunk = mr
    steps = script(rng, rng.choice([15, 40]))
    for st in steps:
        for _ in range(rng.choice([0, 1, 3])):
            g = garbage(rng)
            rec.ev("garbage", g.hex())
            R.feed(g)
            rec.n("garbage_bytes", len(g))
        rec.ev(st)
        R.tick(rng.choice([0, 1]), 2)
        apply(S, st, rec)
        for t, m in R.sent():
            rec.n("sent_messages")
    R.run(600, 30)
    rec.sig((tuple(S.desc), repr(steps)))


def run_case(rng, rec, tier):
    if rng.random() < 0.5:
        twin(rng, rec, tier)
    else:
        crash(rng, rec, tier)
