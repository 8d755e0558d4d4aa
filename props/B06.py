"""Diagnostic options only print: twin runs with and without them, and the printed lines."""
import random
import re
from vlib import env, rig, sink, kdev
from vlib.runner import Violation, check, eq
from props import M07

ID = "B06"
RULE = ("A case is a random configuration over everything the firmware offers, a simulated device which loses the connection at times, and a random script of user input, device traffic, "
        "foreign messages and time. The script is run twice, the second time with a random set of the documented diagnostic options in the configuration, and everything observable is compared "
        "after every step. The lines printed are checked against the events observed: messages sent for parameters, messages belonging to nothing, values of the watched parameter, statistics. "
        "Signature = configuration, options and script.")
CASES = {"quick": 2000, "thorough": 40000}
FLOORS = {"compared_steps": 6000, "printed_lines": 10000, "unparsed_lines": 800, "sent_lines": 300, "mapping_lines": 500, "stats_lines": 800, "client_stats": 500, "protocol_lines": 200,
          "excluded_messages": 300}
LEVEL_NOTE = ("Exploration with the firmware itself, without the options, as reference (MIDI sent with time, LEDs, labels and screen at every step), and an oracle for the printed lines. "
              "Of the lines the essential contents are checked (class and numbers of the message, value of the watched parameter, period of statistics), not their wording.")

WATCH = ["rig:MAPPING_RIG_NAME", "rig:MAPPING_RIG_VOLUME", "amp:MAPPING_AMP_NAME", "morph:MAPPING_MORPH_PEDAL", "tempo:MAPPING_TEMPO_DISPLAY",
         "amp:MAPPING_AMP_STATE", "cabinet:MAPPING_CABINET_STATE", "tempo:MAPPING_TEMPO_BPM", "system:MAPPING_MAIN_VOLUME", "freeze:MAPPING_FREEZE_ALL_GLOBAL",
         "TUNER_MODE_STATE", "RIG_ID"]
LINE = re.compile(r"^(.*) \((SystemExclusive|ControlChange|ProgramChange|MIDIUnknownEvent|[A-Za-z]+)\)$", re.S)


def hexlist(b):
    return ["%x" % x for x in b]


def describes(line, m):
    """Does the printed line describe the raw message m?"""
    g = LINE.match(line)
    if not g:
        return False
    body, cls = g.group(1), g.group(2)
    nums = [int(x) for x in re.findall(r"\d+", body)]
    if m[0] == 0xF0:
        if cls in ("ControlChange", "ProgramChange", "MIDIUnknownEvent"):
            return False
        parts = re.findall(r"\[([^\]]*)\]", body.split(" String:")[0])
        got = [x.strip() for p in parts for x in p.split(",") if x.strip()]
        return got == hexlist(m[1:-1])
    if m[0] & 0xF0 == 0xB0:
        return cls == "ControlChange" and nums == [m[1], m[2]]
    if m[0] & 0xF0 == 0xC0:
        return cls == "ProgramChange" and nums == [m[1]]
    return cls not in ("SystemExclusive", "ControlChange", "ProgramChange")


def noise(r):
    """Message of a kind which the library delivers as it is, and which belongs to nothing."""
    for _ in range(200):
        m = M07.noise(r)
        if m[0] & 0xF0 == 0xB0 and len(m) == 3:
            return m
        if m[0] == 0xF0 and m[-1] == 0xF7 and 6 < len(m) < 60 and m[1:4] != M07.KM and m[1] == 0:
            return m
    return rig.cc(99, 1)


OPTS = ["debugStats", "debugBidirectionalProtocol", "debugUnparsedMessages", "debugSentMessages", "excludeMessageTypes", "debugClientStats", "debugMapping"]


def build(seed, opts, W=None):
    r = random.Random(seed)
    W = env.World()
    cfg = {"updateInterval": r.choice([200, 200, 50]), "clearBuffers": r.random() < 0.5}
    watch = r.choice(watches(W))
    protocol = r.random() < 0.6
    for k, v in opts.items():
        cfg[k] = mapping(W, watch)() if k == "debugMapping" else v
    S = sink.Sink(W, r, nsw=r.choice([1, 3, 5]), protocol=protocol, cfg=cfg)
    S.watch = None
    if "debugMapping" in opts:
        S.watch = cfg["debugMapping"]
    S.protocol_on = protocol
    D = kdev.Device(W, r.random(), S.R.inport, S.R.port, rig=r.randrange(20))
    D.latency = (lambda: r.choice([1, 5, 30])) if r.random() < 0.5 else None
    return S, D


_watches = None


def mapping(W, w):
    if ":" not in w:
        return getattr(W.get("pyswitch.clients.kemper:KemperMappings"), w)
    return W.get("pyswitch.clients.kemper.mappings." + w)


def watches(W):
    global _watches
    if _watches is None:
        _watches = []
        for w in WATCH:
            try:
                mapping(W, w)
                _watches.append(w)
            except (ImportError, AttributeError):
                pass
    return _watches


def options(r):
    o = {}
    only = r.random() < 0.35
    pick = [r.choice(OPTS)] if only else [k for k in OPTS if r.random() < 0.5]
    for k in pick:
        o[k] = True
    if "excludeMessageTypes" in o:
        o["excludeMessageTypes"] = r.choice([["SystemExclusive"], ["ControlChange"], ["SystemExclusive", "ControlChange"], [], None])
        o["debugUnparsedMessages"] = True
    if ("debugStats" in o or "debugClientStats" in o) and r.random() < 0.7:
        o["debugStatsInterval"] = r.choice([100, 500, 2000])
    if not o:
        o["debugSentMessages"] = True
    return o


def steps(r, n):
    out = M07.script(r, n)
    for i in range(len(out)):
        if r.random() < 0.12:
            out[i] = ("link", r.random() < 0.5)
        elif r.random() < 0.3:
            out[i] = ("noise", [noise(r) for _ in range(r.choice([1, 2, 5]))])
        elif r.random() < 0.1:
            out[i] = ("time", 6000)
    return out


def step(S, D, st):
    R = S.R
    if st[0] == "link":
        D.link = st[1]
        R.tick(1, 2)
    elif st[0] == "noise":
        for m in st[1]:
            R.feed(m)
        R.tick(0, 4)
    elif st[0] == "time":
        t = R.clock.ms + st[1]
        while R.clock.ms < t:
            D.update()
            R.tick(40)
    else:
        M07.apply(S, st)
    D.update()
    R.tick(1, 2)
    for _ in range(80):
        if not R.inport.inbuf:
            break
        R.tick(0)


def run_case(rng, rec, tier):
    seed = rng.random()
    opts = options(rng)
    script = steps(rng, rng.choice([10, 25]))
    runs = []
    all_steps = [("time", 5)] + script
    for mode in (0, 1):
        S, D = build(seed, opts if mode else {})
        R = S.R
        log = []
        t0 = S.W.clock.ms
        for st in all_steps:
            b = S.W.clock.ms
            step(S, D, st)
            log.append((R.sent(), S.observe(), list(S.W.printed), b, S.W.clock.ms, S.watch.value if S.watch is not None else None))
            del S.W.printed[:]
        runs.append((S, log, t0))
    S, log, t0 = runs[1]
    what = "options %r, actions %r" % (sorted(opts), S.desc)
    for i, (a, b) in enumerate(zip(runs[0][1], log)):
        rec.n("compared_steps")
        # The runtime statistics are updated like everything else, with incoming messages being processed before: the order within an update can differ
        same = a[0] == b[0] or ("debugStats" in opts and sorted(a[0]) == sorted(b[0]))
        if not same or a[1] != b[1]:
            d = ["messages sent: without %r, with %r" % ([(t, m.hex()) for t, m in a[0]], [(t, m.hex()) for t, m in b[0]])] if a[0] != b[0] else []
            d += ["%s: without %r, with %r" % (k, a[1][k], b[1][k]) for k in a[1] if a[1][k] != b[1][k]]
            raise Violation("step %d %r: diagnostic options change what the controller does, %s: %s" % (i, all_steps[i], what, "; ".join(d)))
        if a[2]:
            raise Violation("step %d %r: lines are printed without any diagnostic option: %r" % (i, all_steps[i], a[2][:3]))
        rec.n("printed_lines", len(b[2]))
        rec.ev(all_steps[i], b[2][:5], [m.hex() for _, m in b[0]][:5])
        lines(S, opts, all_steps[i], b, rec, what)
    if "debugStats" in opts:
        iv = opts.get("debugStatsInterval", S.cfg.get("updateInterval", 200))
        n = 0
        for st, (_, _, pr, b, e, _) in zip(all_steps, log):
            k = sum(1 for l in pr if "Max" in l and "Avg" in l)
            n += k
            if st[0] == "time" and st[1] >= 2000:
                lo, hi = int((e - b) / (iv + S.cfg["updateInterval"] + 120)) - 1, (e - b) // iv + 1
                check(lo <= k <= hi, lambda: "runtime statistics printed %d times in %d ms with interval %d, %s" % (k, e - b, iv, what))
        rec.n("stats_lines", n)
    rec.sig((tuple(S.desc), tuple(sorted(opts)), repr(script)))
    rec.state(repr(log[-1][1]))


def lines(S, opts, st, entry, rec, what):
    sent, pr = [m for _, m in entry[0]], entry[2]
    msgs = [l for l in pr if LINE.match(l) and "Received value" not in l]
    ex = opts.get("excludeMessageTypes") or []
    for l in msgs:
        check(LINE.match(l).group(2) not in ex, lambda: "a message of an excluded type is printed: %r, %s" % (l, what))
    if not opts.get("debugUnparsedMessages") and not opts.get("debugSentMessages"):
        check(not msgs, lambda: "messages are printed without option: %r, %s" % (msgs[:3], what))
    if opts.get("debugUnparsedMessages") and st[0] == "noise":
        for m in st[1]:
            cls = "SystemExclusive" if m[0] == 0xF0 else "ControlChange"
            k = sum(1 for l in msgs if describes(l, m))
            if cls in ex:
                rec.n("excluded_messages")
                continue
            want = sum(1 for x in st[1] if x == m or (x[0] != 0xF0 and m[0] != 0xF0 and x[1:] == m[1:]))
            check(k >= want, lambda: "the message %s belongs to nothing, but is printed %d instead of %d times: %r, %s" % (m.hex(), k, want, msgs[:6], what))
            rec.n("unparsed_lines")
    if opts.get("debugSentMessages") and not opts.get("debugUnparsedMessages"):
        for l in msgs:
            check(any(describes(l, m) for m in sent), lambda: "printed as sent, but not sent: %r (sent: %r), %s" % (l, [m.hex() for m in sent], what))
            rec.n("sent_lines")
        # Control changes and settings of parameters (function 1) come from parameters, except for the raw messages of some actions
        raw = any(k in ("custom", "rotate", "boom", "hid") for k in S.desc)
        for m in sent:
            val = m[0] & 0xF0 == 0xB0 if not raw else False
            if m[0] == 0xF0 and m[1:4] == M07.KM and len(m) > 6 and m[6] in (1, 2):
                val = True
            if val and not ({"ControlChange", "SystemExclusive"} & set(ex)):
                k = sum(1 for l in msgs if describes(l, m))
                n = sum(1 for x in sent if x[1:] == m[1:])
                check(k >= n, lambda: "the sent message %s is printed %d instead of %d times: %r, %s" % (m.hex(), k, n, msgs[:6], what))
                rec.n("sent_lines")
    vals = [l for l in pr if "Received value" in l]
    if S.watch is None:
        check(not vals, lambda: "values are printed without option: %r" % vals[:2])
    else:
        for l in vals:
            check(l.startswith(S.watch.name), lambda: "value of another parameter printed: %r, watched %r" % (l, S.watch.name))
            rec.n("mapping_lines")
        if st[0] == "dev" and len(vals) == 1:
            check(repr(entry[5]) in vals[0], lambda: "printed value %r, value of the parameter %r" % (vals[0], entry[5]))
    bd = [l for l in pr if l.startswith("Bidirectional")]
    if not opts.get("debugBidirectionalProtocol") or not S.protocol_on:
        check(not bd, lambda: "protocol lines without option: %r" % bd[:2])
    else:
        rec.n("protocol_lines", len(bd))
        beacons = sum(1 for m in sent if m[0] == 0xF0 and len(m) > 7 and m[6] == 0x7e)
        if beacons > 2:
            check(bd, lambda: "%d beacons sent, but nothing printed" % beacons)
    cs = [l for l in pr if "requests pending" in l]
    if not opts.get("debugClientStats"):
        check(not cs, lambda: "client statistics without option: %r" % cs[:2])
    else:
        rec.n("client_stats", len(cs))
        if st[0] == "time" and st[1] >= 2000:
            iv = opts.get("debugStatsInterval", 2000)
            d = entry[4] - entry[3]
            lo, hi = int(d / (iv + 300)) - 1, d // iv + 1
            check(lo <= len(cs) <= hi, lambda: "client statistics printed %d times in %d ms with interval %d, %s" % (len(cs), d, iv, what))
