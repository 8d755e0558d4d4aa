"""The MIDI library the firmware is run with in the browser: bytes <-> messages are exact inverses for every message, any chunking of the stream and any channel filter."""
import os, sys
from vlib import runner, env

ID = "W06"
RULE = ("A case is a random stream of valid messages of all kinds, optionally with unknown status bytes and stray data bytes between them, handed to the library in random portions (fixed length messages are "
        "cut anywhere, SysEx arrive in one piece), a random buffer size and channel filter; and a random list of messages sent singly or as lists on random channels. Signature = the message kinds and the portions.")
CASES = {"quick": 60000, "thorough": 1000000}
FLOORS = {"messages decoded": 4200, "messages encoded": 2000, "filtered out": 1000, "cut messages": 550, "sysex": 530, "unknown status": 150, "stray data": 380, "rejected": 600, "after garbage": 55}
LEVEL_NOTE = "Online comparison with an independent encoder of the MIDI 1.0 specification written for this check: what comes out must be exactly the messages which went in, in order."
ASSUMPTIONS = ["a SysEx message arrives with one read and fits into the buffer (the library drops the beginning of one which does not; it is a vendored third party library)"]
BASE = os.path.join(env.REPO, "web", "htdocs", "python")
M = {}

#   name: (module, class, status, attributes)
KINDS = {
    "off": ("note_off", "NoteOff", 0x80, ("note", "velocity")),
    "on": ("note_on", "NoteOn", 0x90, ("note", "velocity")),
    "poly": ("polyphonic_key_pressure", "PolyphonicKeyPressure", 0xA0, ("note", "pressure")),
    "cc": ("control_change", "ControlChange", 0xB0, ("control", "value")),
    "pc": ("program_change", "ProgramChange", 0xC0, ("patch",)),
    "cp": ("channel_pressure", "ChannelPressure", 0xD0, ("pressure",)),
    "bend": ("pitch_bend", "PitchBend", 0xE0, ("pitch_bend",)),
    "sysex": ("system_exclusive", "SystemExclusive", 0xF0, ("manufacturer_id", "data")),
    "mtc": ("mtc_quarter_frame", "MtcQuarterFrame", 0xF1, ("type", "value")),
    "clock": ("timing_clock", "TimingClock", 0xF8, ()),
    "start": ("start", "Start", 0xFA, ()),
    "cont": ("midi_continue", "Continue", 0xFB, ()),
    "stop": ("stop", "Stop", 0xFC, ()),
    "sense": ("active_sensing", "ActiveSensing", 0xFE, ()),
}
UNKNOWN = [0xF2, 0xF3, 0xF4, 0xF5, 0xF6, 0xF9, 0xFD, 0xFF]
CHANNEL = ("off", "on", "poly", "cc", "pc", "cp", "bend")


def setup(tier):
    import importlib
    for k in [k for k in sys.modules if k.split(".")[0] == "adafruit_midi"]:
        del sys.modules[k]
    sys.path.insert(0, BASE)
    M["midi"] = importlib.import_module("adafruit_midi")
    assert M["midi"].__file__.startswith(BASE)
    M["mm"] = importlib.import_module("adafruit_midi.midi_message")
    for k, (mod, cls, st, at) in KINDS.items():
        M[k] = getattr(importlib.import_module("adafruit_midi." + mod), cls)
    sys.path.remove(BASE)


def gen(r, kind=None):
    """(kind, channel or None, values, bytes) according to the MIDI specification"""
    k = kind or r.choice(list(KINDS) + ["sysex", "cc", "pc", "bend"])
    v7 = lambda: r.choice([0, 127, 1, 64, r.randrange(128)])
    st = KINDS[k][2]
    ch = r.randrange(16) if k in CHANNEL else None
    if k in ("pc", "cp"):
        v = (v7(),)
        return k, ch, v, bytes([st + ch, v[0]])
    if k == "bend":
        v = (r.choice([0, 8192, 16383, 127, 128, r.randrange(16384)]),)
        return k, ch, v, bytes([st + ch, v[0] % 128, v[0] // 128])
    if k in CHANNEL:
        v = (v7(), v7())
        return k, ch, v, bytes([st + ch, v[0], v[1]])
    if k == "mtc":
        v = (r.randrange(8), r.randrange(16))
        return k, None, v, bytes([st, v[0] * 16 + v[1]])
    if k == "sysex":
        m = bytes([r.randrange(1, 128)]) if r.random() < 0.5 else bytes([0, r.randrange(128), r.randrange(128)])
        d = bytes(v7() for _ in range(r.choice([0, 1, 2, 7, r.randrange(20)])))
        return k, None, (m, d), b"\xf0" + m + d + b"\xf7"
    return k, None, (), bytes([st])


def same(msg, k, ch, v, info):
    runner.check(type(msg) is M[k], lambda: "expected a %s message, the library decoded %r (%s)" % (k, msg, info))
    for a, w in zip(KINDS[k][3], v):
        runner.eq(getattr(msg, a), w, "attribute %s of the %s message decoded (%s)" % (a, k, info))
    if k in CHANNEL:
        runner.eq(msg.channel, ch, "channel of the %s message decoded (%s)" % (k, info))


class Port:
    """Hands out the bytes in portions; `pieces` are never cut."""

    def __init__(self, r):
        self.r, self.q, self.cut, self.sizes = r, [], 0, []

    def put(self, b, whole):
        self.q.append((b, whole))

    def read(self, n):
        assert n > 0
        out, limit = b"", self.r.choice([n, n, 1, 2, 3, self.r.randrange(1, n + 1), 0])
        while self.q:
            b, whole = self.q[0]
            room = (n if whole else min(limit, n)) - len(out)
            if whole:
                if len(b) > room or (out and len(out) >= limit):
                    break
                self.q.pop(0)
                out += b
                continue
            if room <= 0:
                break
            out += b[:room]
            if len(b) > room:
                self.q[0] = (b[room:], False)
                self.cut += 1
                break
            self.q.pop(0)
        self.sizes.append(len(out))
        assert len(out) <= n
        return out if out or self.r.random() < 0.5 else None


class Out:
    def __init__(self):
        self.b = []

    def write(self, buf, num):
        self.b.append(bytes(buf)[:num])


def drain(m, port):
    got, idle = [], 0
    while idle < 12:
        x = m.receive()
        if x is None:
            idle = 0 if port.q else idle + 1
        else:
            got.append(x)
            idle = 0
    return got


def run_case(r, rec, tier):
    flt = r.choice([None, None, "ALL", r.randrange(16), tuple(r.randrange(16) for _ in range(r.randrange(4)))])
    passes = (lambda c: True) if flt in (None, "ALL") else (lambda c: c == flt) if isinstance(flt, int) else (lambda c: c in flt)
    port, out = Port(r), Out()
    outch = r.randrange(16)
    m = M["midi"].MIDI(midi_in=port, midi_out=out, in_channel=flt, out_channel=outch, in_buf_size=r.choice([30, 100, r.randrange(26, 60)]))
    # --- decoding
    if r.random() < 0.1:
        port.put(bytes(r.randrange(256) for _ in range(r.randrange(1, 60))), False)
        drain(m, port)
        port.put(bytes(3), False)
        drain(m, port)
        rec.n("after garbage")
    want, stream = [], []
    messy = r.random() < 0.4
    for _ in range(r.randrange(1, 16)):
        if messy and r.random() < 0.2:
            b = bytes(r.randrange(128) for _ in range(r.randrange(1, 5)))
            port.put(b, False)
            stream.append(b.hex())
            rec.n("stray data")
        if messy and r.random() < 0.08:
            st = r.choice(UNKNOWN)
            port.put(bytes([st]), False)
            want.append(("unknown", None, (st,)))
            stream.append("%02x" % st)
            rec.n("unknown status")
        k, ch, v, b = gen(r)
        port.put(b, k == "sysex")
        stream.append(b.hex())
        rec.n("sysex", k == "sysex")
        if ch is None or passes(ch):
            want.append((k, ch, v))
        else:
            rec.n("filtered out")
    got = drain(m, port)
    info = "stream %s, channels %r, read in portions of %r" % (" ".join(stream), flt, port.sizes)
    for g, (k, ch, v) in zip(got, want):
        if k == "unknown":
            runner.check(isinstance(g, M["mm"].MIDIUnknownEvent) and g.status == v[0], lambda: "expected an unknown event of status %d, got %r (%s)" % (v[0], g, info))
        else:
            same(g, k, ch, v, info)
        rec.n("messages decoded")
    runner.check(len(got) == len(want), lambda: "%d messages decoded, %d were sent to the filter's channels (%s)" % (len(got), len(want), info))
    rec.n("cut messages", port.cut)
    # --- encoding
    for _ in range(r.randrange(1, 4)):
        group = [gen(r) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        ch = r.choice([None, r.randrange(16)])
        objs = []
        for k, c, v, b in group:
            a = list(v)
            if k in ("on", "off", "poly") and r.random() < 0.3:
                a[0] = note_name(r, v[0])
            objs.append(M[k](*a, **({"channel": c} if k in CHANNEL and r.random() < 0.5 else {})))
        m.send(objs[0] if len(objs) == 1 and r.random() < 0.8 else objs, **({"channel": ch} if ch is not None or r.random() < 0.5 else {}))
        eff = outch if ch is None else ch
        exp = b"".join(bytes([b[0] & 0xF0 | eff]) + b[1:] if k in CHANNEL else b for k, c, v, b in group)
        runner.check(b"".join(out.b) == exp, lambda: "sent %r (channel %r, default %d): bytes %s, expected %s" % (objs, ch, outch, b"".join(out.b).hex(), exp.hex()))
        out.b.clear()
        rec.n("messages encoded", len(group))
    # --- values which do not exist are rejected
    k = r.choice(["off", "on", "poly", "cc", "pc", "cp", "bend", "mtc", "channel", "out", "in"])
    bad = r.choice([-1, 128, 300, -200])
    try:
        if k == "channel":
            M["cc"](1, 2, channel=r.choice([-1, 16, 99]))
        elif k == "out":
            M["midi"].MIDI(midi_out=out, out_channel=r.choice([-1, 16]))
        elif k == "in":
            M["midi"].MIDI(midi_in=port, in_channel=r.choice([-1, 16, (3, 16), (-1,), "x"]))
        else:
            n = len(KINDS[k][3])
            a = [r.randrange(8) for _ in range(n)]
            a[r.randrange(n)] = r.choice([-1, 16384, 70000]) if k == "bend" else bad
            M[k](*a)
        raised = False
    except (ValueError, RuntimeError):
        raised = True
    runner.check(raised, lambda: "a value out of range has been accepted: %s" % k)
    rec.n("rejected")
    rec.sig(tuple(x[0] for x in want) + tuple(port.sizes))


def note_name(r, n):
    """some name of MIDI note n (C4 = 60)"""
    names = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}
    opts = []
    for x, s in names.items():
        for acc, d in (("", 0), ("#", 1), ("b", -1)):
            o = n - s - d
            if o % 12 == 0 and o // 12 - 1 >= 0:
                opts.append((x if r.random() < 0.7 else x.lower()) + acc + str(o // 12 - 1))
    return r.choice(opts) if opts else n
