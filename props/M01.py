"""MIDI routing: every target's log is compared with the streams of the sources routed to it."""
from collections import deque
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "M01"
RULE = ("A case is a random routing graph over 2-5 ports (fake devices or real USB/DIN adapters on byte ports) and the application, random message streams arriving "
        "in arbitrary interleaving with receive calls and messages sent by the application; non-trivial when messages were delivered over at least two routes; "
        "signature = the graph with stream lengths.")
CASES = {"quick": 6000, "thorough": 100000}
FLOORS = {"delivered": 10000, "to_app": 8000, "through": 8000, "from_app": 2000, "shared_source": 200, "merged": 200, "distributed": 200, "unknown": 500,
          "bytes_cases": 150}
LEVEL_NOTE = ("Exploration: exact per-target delivery logs for seeded random routing graphs and schedules. Duplicate routes are not generated; relative order "
              "is required per source only.")


class Port:
    def __init__(self, name):
        self.name, self.q, self.sent, self.reads = name, deque(), [], 0

    def receive(self):
        self.reads += 1
        return self.q.popleft() if self.q else None

    def send(self, m):
        self.sent.append(m)


def graph(rng, ports, app):
    """random set of (source, target) pairs without duplicates and without self loops"""
    nodes = list(ports) + [app]
    pairs = [(s, t) for s in nodes for t in nodes if s is not t]
    style = rng.random()
    if style < 0.25:                       # typical shipped combinations
        a, b = ports[0], ports[1]
        routes = rng.choice([
            [(a, app), (app, a)], [(a, app), (app, a), (b, app), (app, b)], [(a, b), (a, app), (app, a)], [(b, a), (a, app), (app, a)],
            [(a, b), (b, a), (a, app), (app, a)], [(a, b), (b, a), (a, app), (app, a), (b, app), (app, b)]])[:]
    else:
        routes = rng.sample(pairs, rng.randint(1, min(len(pairs), 9)))
    rng.shuffle(routes)
    return routes


def run_case(rng, rec, tier):
    W = env.World()
    W.hw.shared_pins = True
    midi = W.imp("pyswitch.controller.midi")
    MR = midi.MidiRouting
    CC = W.get("adafruit_midi.control_change:ControlChange")
    PC = W.get("adafruit_midi.program_change:ProgramChange")
    SX = W.get("adafruit_midi.system_exclusive:SystemExclusive")
    Unknown = W.get("adafruit_midi.midi_message:MIDIUnknownEvent")
    real = rng.random() < 0.3
    n = rng.choice([2, 2, 3, 4, 5])
    if real:
        n = min(n, 3)
        rec.n("bytes_cases")
        dm = W.imp("pyswitch.hardware.adafruit.AdafruitDinMidiDevice")
        um = W.imp("pyswitch.hardware.adafruit.AdafruitUsbMidiDevice")
        ports, wires = [], []
        for i in range(n):
            ch = rng.randint(0, 15)
            if i == 0:
                d = um.AdafruitUsbMidiDevice(port_in=W.hw.usb_ports[0], port_out=W.hw.usb_ports[1], in_buf_size=60, out_channel=ch)
                wires.append({"in": W.hw.usb_ports[0], "out": W.hw.usb_ports[1], "ch": ch})
            else:
                b = W.hw.board
                d = dm.AdafruitDinMidiDevice(gpio_in=b.GP16, gpio_out=b.GP17, in_buf_size=60, baudrate=31250, timeout=0.001, out_channel=ch)
                u = W.hw.uarts[-1]
                # separate the two directions of the UART model
                out = type(u)(b.GP16, b.GP17)
                u.write = out.write
                wires.append({"in": u, "out": out, "ch": ch})
            ports.append(d)
    else:
        ports = [Port("p%d" % i) for i in range(n)]
    app = MR.APPLICATION
    routes = graph(rng, ports, app)
    ctl = midi.MidiController([MR(source=s, target=t) for s, t in routes])
    sources = [p for p in ports if any(s is p for s, t in routes)]
    streams = {id(p): [] for p in ports}
    appsent, appgot = [], []
    idx = {id(p): i for i, p in enumerate(ports)}
    cnt = [0]
    for p in sources:
        tg = [t for s, t in routes if s is p]
        if app in tg and len(tg) > 1:
            rec.n("shared_source")
        if len(tg) > 1:
            rec.n("distributed")
    for t in ports:
        if len([s for s, x in routes if x is t]) > 1:
            rec.n("merged")

    def mk():
        """(object, key, forwardable). The key identifies the message and its content."""
        cnt[0] += 1
        k = cnt[0]
        r = rng.random()
        if r < 0.4:
            return ("cc", k % 128, k // 128), True
        if r < 0.55 and k < 128:
            return ("pc", k % 128), True
        if r < 0.9:
            return ("sx", 0, k // 128, k % 128) + tuple(rng.randint(0, 127) for _ in range(rng.choice([0, 1, 5, 20]))), True
        return ("unknown", rng.choice([0xF8, 0xFA, 0xFE, 0xF6]) if real else 1000 + k), False

    def obj(k):
        if k[0] == "cc":
            return CC(k[1], k[2])
        if k[0] == "pc":
            return PC(k[1])
        if k[0] == "sx":
            return SX([0, 0x20, 0x33], list(k[1:]))
        if k[0] == "nostatus":
            return object()
        return Unknown(k[1])

    def key(o):
        if isinstance(o, CC):
            return ("cc", o.control, o.value)
        if isinstance(o, PC):
            return ("pc", o.patch)
        if isinstance(o, SX):
            return ("sx",) + tuple(o.data)
        if isinstance(o, Unknown):
            return ("unknown", o.status)
        return ("?",)

    def raw(k, ch):
        if k[0] == "cc":
            return bytes([0xB0 | ch, k[1], k[2]])
        if k[0] == "pc":
            return bytes([0xC0 | ch, k[1]])
        if k[0] == "sx":
            return bytes([0xF0, 0, 0x20, 0x33]) + bytes(k[1:]) + b"\xF7"
        return bytes([k[1]])

    def arrive(p):
        k, fw = mk()
        if not fw:
            rec.n("unknown")
        if real:
            wires[idx[id(p)]]["in"].feed(raw(k, rng.randint(0, 15)))
            streams[id(p)].append((k, fw, None))
        else:
            o = obj(k)
            p.q.append(o)
            streams[id(p)].append((k, fw, o))

    def recv():
        m = ctl.receive()
        if m:
            appgot.append((key(m), m))
        return m

    total = rng.choice([0, 3, 10, 40, 80])
    for _ in range(total):
        r = rng.random()
        if r < 0.45 and ports:
            p = rng.choice(ports)
            for _ in range(rng.choice([1, 1, 2, 6])):
                arrive(p)
        elif r < 0.85:
            for _ in range(rng.choice([1, 1, 3, 10])):
                recv()
        else:
            k, fw = mk()
            while not fw:
                k, fw = mk()
            o = obj(k)
            appsent.append((k, fw, o))
            ctl.send(o)
            rec.n("from_app", 1 if any(s == app for s, t in routes) else 0)
    left = sum(len(s) for s in streams.values()) * 2 + 200
    idle = 0
    while idle < (90 if real else 12):
        idle = idle + 1 if recv() is None else 0
        pend = any((w["in"].inbuf for w in wires)) if real else any(p.q for p in sources)
        if pend:
            idle = 0
        left -= 1
        if left < 0:
            break
    # ---------------------------------------------------------------- oracle
    unrouted = [p for p in ports if not any(p is s for s in sources)]
    if not real:
        for p in unrouted:
            check(p.reads == 0, "port %s is read although it is no source" % p.name)
        for p in sources:
            check(not p.q, lambda: "%d messages of %s are never taken from it" % (len(p.q), p.name))
    names = lambda x: "application" if x == app else "port %d" % idx[id(x)]

    def merge_ok(got, want_by_source, where):
        """got: list of items; want_by_source: {source: list}. Every item of every list exactly once, lists in order."""
        pos = {s: 0 for s in want_by_source}
        # keys are unique over all sources except unknown events and wrapped program changes: match by order greedily with backtracking on ties
        states = [dict(pos)]
        for i, g in enumerate(got):
            nxt = []
            for st in states:
                for s, l in want_by_source.items():
                    if st[s] < len(l) and l[st[s]] == g:
                        ns = dict(st)
                        ns[s] += 1
                        if ns not in nxt:
                            nxt.append(ns)
            if not nxt:
                st = states[0]
                raise Violation("%s: message %d delivered is %r, expected next one of %r (routes %s)" % (
                    where, i, g, [l[st[s]] if st[s] < len(l) else None for s, l in want_by_source.items()], text))
            states = nxt[:50]
        st = max(states, key=lambda s: sum(s.values()))
        for s, l in want_by_source.items():
            if st[s] != len(l):
                raise Violation("%s: %d of %d messages from source %s were not delivered (routes %s)" % (where, len(l) - st[s], len(l), s, text))
        rec.n("delivered", len(got))

    text = ", ".join("%s->%s" % (names(s), names(t)) for s, t in routes)
    # application
    want = {}
    for s, t in routes:
        if t == app and s != app:
            want[names(s)] = [k for k, fw, o in streams[id(s)] if fw or not real]
    merge_ok([k for k, m in appgot if not (real and k[0] == "unknown")], want, "application")
    rec.n("to_app", len(appgot))
    if not real:
        objs = [o for s, t in routes if t == app and s != app for k, fw, o in streams[id(s)]]
        check(all(any(o is m for o in objs) for k, m in appgot), "the application got copies")
    # ports
    for p in ports:
        want = {}
        for s, t in routes:
            if t is p:
                src = appsent if s == app else streams[id(s)]
                want[names(s)] = [k for k, fw, o in src if fw]
        if real:
            w = wires[idx[id(p)]]
            got = [bytes(m) for _, b in w["out"].out for m in rig.parse_stream(b)]
            merge_ok(got, {s: [raw(k, w["ch"]) for k in l] for s, l in want.items()}, names(p))
        else:
            merge_ok([key(o) for o in p.sent], want, names(p))
        rec.n("through", sum(len(l) for s, l in want.items() if s != "application"))
    if len(routes) > 1 and total:
        rec.sig((tuple(sorted((names(s), names(t)) for s, t in routes)), [len(streams[id(p)]) for p in ports], len(appsent), real))
