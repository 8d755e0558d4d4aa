"""The virtual device: answers, set commands, bidirectional reports, rig and bank rules against an independent model."""
from vlib import vdev
from vlib.runner import Violation, check, eq

ID = "W05"
RULE = ("A case is a history of messages to the project's virtual Kemper (connection requests with every parameter set and lease, requests and set commands for known and unknown numeric and text parameters, "
        "controllers, rig/bank/preselect/morph/tap keys, foreign and malformed messages), changes on the device's own side and time steps. After each one all messages sent and, regularly, the whole parameter "
        "storage are compared with a model. Fixed cases walk through all 625 rigs. Signature = history; non-trivial when requests, sets and reports occurred.")
CASES = {"quick": 1500, "thorough": 25000}
FLOORS = {"requests": 3300, "sets": 6500, "reports": 3500, "initial_sets": 1300, "rig_selects": 3300, "lease_ends": 400, "keepalives": 10000, "dumps": 7500, "foreign": 1700}
LEVEL_NOTE = "Exploration: the device's JavaScript runs in node on a virtual clock; a separate Python model of protocol, storage and rig rules predicts every message and every stored value."
ASSUMPTIONS = ["node runs the device; its timers are driven by the virtual clock"]

PRE = bytes([240, 0, 32, 51])
IN = PRE + bytes([2, 127])
OUT = PRE + bytes([0, 0])
PARTS = [50, 51, 52, 53, 56, 58]
SET1 = [("n", p, a) for p in PARTS for a in (0, 3)] + [("n", 124, 0), ("n", 127, 126), ("n", 125, 84), ("n", 124, 15), ("c", 32), ("p",)]
NAME = ("n", 0, 1)
STATE_CC = {17: 50, 18: 51, 19: 52, 20: 53, 22: 56, 24: 58, 26: 60, 27: 60, 28: 61, 29: 61}
COL = ["Blue", "Yellow", "Red", "Green", "Purple"]
RIGN = ["Clean", "Crunch", "Overdrive", "Lead", "Acoustic"]


class Clock:
    def __init__(self):
        self.ms = 100000


def rigname(r):
    return COL[r // 5 % 5] + " " + RIGN[r % 5]


class Model:
    def __init__(self, dev):
        d, s = dev.dump()
        self.v = dict(d)
        self.rig = 0
        self.presel = None
        self.keys = {c: 0 for c in (50, 51, 52, 53, 54)}
        self.last = None
        self.pset, self.lease, self.connected = None, None, False
        self.date = d[("n", 0, 3)]
        self.fade = None

    def active(self, k):
        if self.pset is None:
            return False
        return (k in SET1 and self.pset in (1, 2, 3, 4)) or (k == NAME and self.pset in (2, 3, 4))

    def msg(self, k, v=None):
        v = self.v.get(k, 0) if v is None else v
        if k[0] == "p":
            return bytes([192, v])
        if k[0] == "c":
            return bytes([176, k[1], v])
        if isinstance(v, str):
            return OUT + bytes([3, 0, k[1], k[2]]) + v.encode("latin1") + b"\0\xf7"
        return OUT + bytes([1, 0, k[1], k[2], v >> 7, v & 127, 247])

    def put(self, k, v, out):
        if self.v.get(k, 0) == v:
            return
        self.v[k] = v
        if self.active(k):
            out.append(self.msg(k))

    def select(self, rig, out):
        if rig == self.rig:
            # nothing has to be reported, but may be
            out.append(("maybe", [self.msg(("c", 32), rig >> 7), self.msg(("p",), rig & 127)] if self.active(("c", 32)) else []))
        elif self.active(("c", 32)):
            out += [self.msg(("c", 32), rig >> 7), self.msg(("p",), rig & 127)]
        self.v[("c", 32)], self.v[("p",)] = rig >> 7, rig & 127
        self.rig = rig
        self.put(NAME, rigname(rig), out)


def run_case(rng, rec, tier):
    ck = Clock()
    bug = rng.random() < 0.3
    dev = vdev.VDev(ck, simulateMorphBug=bug)
    M = Model(dev)
    hist = []
    per = {"tempo": None, "keep": None, "cnt": 0, "upd": ck.ms, "tuner": None, "pulse": ck.ms}
    bpm = [120]
    tuner = [False]
    rec.ev(ck.ms, "start")

    def note(*a):
        hist.append(a)
        rec.ev(ck.ms, a)

    def norm(got, want, why):
        """want may contain ('maybe', [...]) parts; order only matters for the two parts of the rig ID"""
        g = list(got)
        opt = []
        w = []
        for m in want:
            if isinstance(m, tuple):
                opt.append(m[1])
            else:
                w.append(m)
        missing = [m for m in w if m not in g]
        check(not missing, lambda: "%s: not sent: %r (sent: %r), history %r" % (why, [m.hex() for m in missing], [m.hex() for m in got], hist[-5:]))
        for m in w:
            g.remove(m) if m in g else check(False, lambda: "%s: sent too rarely: %s" % (why, m.hex()))
        for o in opt:
            if o and all(m in g for m in o):
                for m in o:
                    g.remove(m)
        check(not g, lambda: "%s: sent although not expected: %r, history %r" % (why, [m.hex() for m in g], hist[-5:]))
        i32 = [i for i, m in enumerate(got) if m[:2] == b"\xb0\x20"]
        ipc = [i for i, m in enumerate(got) if m[0] == 0xc0]
        check(len(i32) == len(ipc) and all(a < b for a, b in zip(i32, ipc)), lambda: "%s: parts of the rig ID are sent in wrong order: %r" % (why, [m.hex() for m in got]))

    def update(dt):
        """Time passes, one update"""
        ck.ms += dt
        now = ck.ms
        gap = now - per["upd"] + 1
        per["upd"] = now
        was = M.connected
        if M.connected and now > M.lease:
            M.connected, M.pset = False, None
            rec.n("lease_ends")
        dev.step()
        got = dev.take()
        keep = [m for m in got if m[:9] == PRE + bytes([2, 127, 126, 0, 127])]
        check(len(keep) <= (1 if was else 0), lambda: "%d keep-alive messages %s" % (len(keep), "at once" if was else "while not connected"))
        if keep:
            rec.n("keepalives")
            check(per["keep"] is None or now - per["keep"] >= 500, lambda: "keep-alive messages %d ms apart" % (now - per["keep"]))
            # (one may still be sent when the lease ends: where counting starts afterwards is not specified)
            c = keep[0][9]
            check(not M.connected or per["cnt"] is None and c in (0, 1) or c == per["cnt"], lambda: "keep-alive counter %d, expected %r" % (c, per["cnt"]))
            per["cnt"] = (c + 1) % 128
            per["keep"] = now
        elif M.connected and was:
            check(per["keep"] is None or now - per["keep"] <= 500 + gap, lambda: "no keep-alive message for %d ms" % (now - per["keep"]))
        if was and not M.connected:
            per["cnt"] = None
        rest = [m for m in got if m not in keep]
        # tempo pulse
        pulse = [m for m in rest if m[:10] == OUT + bytes([1, 0, 124, 0])]
        rest = [m for m in rest if m not in pulse]
        val = dev.get(("n", 124, 0))[0]
        if val != M.v[("n", 124, 0)]:
            check(bpm[0] and now - per["pulse"] >= 30000 / bpm[0] - 1, lambda: "tempo pulse changes after %d ms at %r bpm" % (now - per["pulse"], bpm[0]))
            M.v[("n", 124, 0)] = val
            check(val in (0, 1), "tempo pulse %r" % val)
            eq(pulse, [M.msg(("n", 124, 0))] if M.active(("n", 124, 0)) else [], "reports of the tempo pulse")
            per["pulse"] = now
            rec.n("pulses")
        else:
            check(not pulse, lambda: "tempo pulse reported without change")
            check(not bpm[0] or now - per["pulse"] <= 30000 / bpm[0] + gap, lambda: "no tempo pulse for %d ms at %r bpm" % (now - per["pulse"], bpm[0]))
        # tuner
        if tuner[0]:
            tm = [M.msg(("n", 125, 84)), M.msg(("n", 124, 15))]
            if rest[:2] == tm:
                rest = rest[2:]
                per["tuner"] = now
                rec.n("tuner_reports")
            check(now - per["tuner"] <= 20 + gap, lambda: "tuner does not send for %d ms" % (now - per["tuner"]))
        # morph fade
        m = dev.get(("n", 0, 11))[0]
        if m != M.v[("n", 0, 11)]:
            f = M.fade
            check(f is not None and (m - M.v[("n", 0, 11)]) * (f - m) >= 0, lambda: "morph state changes from %d to %r with target %r" % (M.v[("n", 0, 11)], m, f))
            M.v[("n", 0, 11)] = m
        check(not rest, lambda: "sent without reason: %r; history %r" % ([x.hex() for x in rest], hist[-5:]))

    def trigger():
        if not bug:
            M.fade = 0 if M.v[("n", 0, 11)] > 8191 else 16383

    def do(m, want, why):
        w0 = len(dev.warns)
        dev.step([m], update=False)
        norm(dev.take(), want, "%s (%s)" % (why, m.hex()))
        return dev.warns[w0:]

    def setbpm(b):
        b = int(b + 0.5)
        if b != bpm[0] or True:
            bpm[0] = b
            per["pulse"] = ck.ms
        M.v[("n", 4, 0)] = 16383 if b >= 256 else b * 64

    def dumpcheck():
        rec.n("dumps")
        d, s = dev.dump()
        eq(s["rig"], M.rig, "rig of the device")
        eq(s["bpm"] or 0, bpm[0], "tempo of the device")
        for k in set(d) | set(M.v):
            if k == ("n", 0, 3) or k[0] == "c" and k[1] in (30, 31, 48, 49, 80, 26, 27, 28, 29):
                continue
            if k == ("c", 47):
                eq(d[k], M.presel, "preselected bank")
                continue
            a, b = d.get(k, 0), M.v.get(k, 0)
            check(a == b, lambda: "parameter %r is %r, expected %r; history %r" % (k, a, b, hist[-6:]))

    per["keep"] = None
    lasttap = None
    for step in range(rng.choice([10, 25, 60])):
        k = rng.randrange(16)
        if k == 0:
            n = rng.choice([1, 1, 3, 20])
            dt = rng.choice([1, 7, 20, 60, 250])
            note("time", n, dt)
            for _ in range(n):
                update(dt)
            continue
        if k == 1 and rng.random() < 0.4:
            # wait for the end of the lease, or just before
            if M.connected:
                left = M.lease - ck.ms
                if left < 70000:
                    note("wait", left)
                    while ck.ms < M.lease - 60:
                        update(50)
                    if rng.random() < 0.6:
                        while M.connected:
                            update(23)
            continue
        if k in (1, 2):
            ps = rng.choice([1, 2, 2, 2, 3, 4, 0, 9])
            flags = rng.choice([1, 0x21, 0, 0x20, 0x2f, 0x2e])
            le = rng.choice([1, 2, 5, 15, 127])
            note("beacon", ps, flags, le)
            M.pset, M.lease = ps, ck.ms + 2000 * le
            if not M.connected:
                M.connected = True
                per["keep"] = None
                per["cnt"] = None
            w = []
            if flags & 1:
                rec.n("initial_sets")
                w = [M.msg(x) for x in SET1 if M.active(x)] + ([M.msg(NAME)] if M.active(NAME) else [])
            do(IN + bytes([126, 0, 64, ps, flags, le, 247]), w, "connection request")
        elif k == 3:
            rec.n("requests")
            key = rng.choice([x for x in M.v if x[0] == "n" and not isinstance(M.v[x], str)]) if rng.random() < 0.7 else ("n", rng.choice([2, 8, 10, 12, 70, 99]), rng.randrange(128))
            note("request", key)
            M.v.setdefault(key, 0)
            do(IN + bytes([65, 0, key[1], key[2], 247]), [M.msg(key)], "request of %r" % (key,))
        elif k == 4:
            rec.n("requests")
            key = ("n", 0, rng.choice([1, 3, 16, 4, 32, 50]))
            note("request text", key)
            if key == ("n", 0, 3):
                dev.step([IN + bytes([67, 0, 0, 3, 247])], update=False)
                o = dev.take()
                check(len(o) == 1 and o[0][:10] == OUT + bytes([3, 0, 0, 3]) and o[0][-2:] == b"\0\xf7", lambda: "answer to rig date: %r" % o)
                eq(o[0][10:-2].decode("latin1"), M.date, "rig date")
            else:
                M.v.setdefault(key, "none")
                do(IN + bytes([67, 0, 0, key[2], 247]), [M.msg(key)], "request of text %r" % (key,))
        elif k in (5, 6):
            rec.n("sets")
            key = rng.choice([x for x in M.v if x[0] == "n" and not isinstance(M.v[x], str) and x not in (("n", 124, 0), ("n", 0, 11))]) if rng.random() < 0.7 else ("n", rng.choice([2, 8, 10, 12, 70, 99]), rng.randrange(128))
            v = rng.choice([0, 1, 1, 127, 128, 8192, 16383, rng.randrange(16384)])
            note("set", key, v)
            M.v.setdefault(key, 0)
            w = []
            ch = M.v[key] != v
            M.put(key, v, w)
            if key == ("n", 4, 0) and ch:
                setbpm(256 if v == 16383 else v / 64)
            if key == ("n", 127, 126) and ch:
                tuner[0] = v == 1
                per["tuner"] = ck.ms
            do(IN + bytes([1, 0, key[1], key[2], v >> 7, v & 127, 247]), w, "setting %r" % (key,))
            rec.n("reports", len(w))
        elif k == 7:
            rec.n("sets")
            key = ("n", 0, rng.choice([16, 4, 32, 50]))
            v = "".join(chr(rng.randrange(32, 127)) for _ in range(rng.choice([0, 1, 9, 40])))
            note("set text", key, v)
            if key[2] == 16 and M.v[key] != v:
                update(3)       # the date has a resolution of 1 ms
                date = True
            else:
                date = False
            M.v[key] = v
            do(IN + bytes([3, 0, 0, key[2]]) + v.encode() + b"\0\xf7", [], "setting text %r" % (key,))
            nd = dev.get(("n", 0, 3))[0]
            eq(nd != M.date, date, "rig date changes when the amp comment changes")
            M.date = nd
        elif k == 8:
            rec.n("sets")
            c = rng.choice(list(STATE_CC) + [90, 91, 7, 75])
            v = rng.choice([0, 1])
            note("cc", c, v)
            w = []
            if c in STATE_CC:
                M.put(("n", STATE_CC[c], 3), v, w)
                rec.n("reports", len(w))
            else:
                M.v[("c", c)] = v
            do(bytes([176, c, v]), w, "controller")
        elif k in (9, 10):
            # rig / bank keys
            rec.n("rig_selects")
            r = rng.random()
            update(3)
            before = (M.rig, M.date)
            w = []
            if r < 0.3:
                b = rng.choice([0, 1, 124, rng.randrange(125)])
                note("preselect", b)
                M.presel = b
                do(bytes([176, 47, b]), [], "bank preselection")
                continue
            if r < 0.75:
                c, v = rng.choice([50, 51, 52, 53, 54]), rng.choice([1, 1, 0])
                note("rig key", c, v)
                if M.keys[c] != v:
                    M.keys[c] = v
                    M.v[("c", c)] = v
                    bank = M.presel if M.presel is not None else M.rig // 5
                    M.presel = None
                    if v:
                        n = bank * 5 + c - 50
                        M.select(n, w)
                        if M.last == n:
                            trigger()
                        else:
                            M.v[("n", 0, 11)] = 0
                        M.last = n
                do(bytes([176, c, v]), w, "rig key")
            else:
                c, v = rng.choice([48, 49]), rng.choice([0, 0, 1])
                note("bank key", c, v)
                if v == 0:
                    M.select((M.rig + (5 if c == 48 else -5)) % 625, w)
                do(bytes([176, c, v]), w, "bank key")
            rec.n("reports", sum(1 for m in w if not isinstance(m, tuple)))
            nd = dev.get(("n", 0, 3))[0]
            if M.rig != before[0]:
                check(nd != M.date, "rig date does not change with the rig")
            M.date = nd
        elif k == 11:
            # the device's own side
            update(3)
            w = []
            if rng.random() < 0.5:
                n = rng.choice([0, 4, 5, 624, rng.randrange(625)])
                note("own rig", n)
                M.select(n, w)
                dev.rig(n)
                M.date = dev.get(("n", 0, 3))[0]
            else:
                key = rng.choice([x for x in SET1 if x[0] == "n" and x != ("n", 124, 0)] + [("n", 60, 3), ("n", 4, 1)])
                v = rng.choice([0, 1, rng.randrange(16384)])
                note("own change", key, v)
                ch = M.v.get(key, 0) != v
                M.put(key, v, w)
                if key == ("n", 127, 126) and ch:
                    tuner[0] = v == 1
                    per["tuner"] = ck.ms
                dev.set(key, v)
            rec.n("reports", sum(1 for m in w if not isinstance(m, tuple)))
            norm(dev.take(), w, "change on the device")
        elif k == 12:
            r = rng.random()
            w = []
            if r < 0.3:
                v = rng.choice([0, 1])
                note("tuner cc", v)
                ch = M.v[("n", 127, 126)] != v
                M.put(("n", 127, 126), v, w)
                if ch:
                    tuner[0] = v == 1
                    per["tuner"] = ck.ms
                do(bytes([176, 31, v]), w, "tuner controller")
            elif r < 0.6:
                v = rng.randrange(128)
                note("morph pedal", v)
                if M.fade is None:
                    M.v[("n", 0, 11)] = v * 128
                    do(bytes([176, 11, v]), [], "morph pedal")
            else:
                note("morph button")
                do(bytes([176, 80, 1]), [], "morph button")
                trigger()
                do(bytes([176, 80, 0]), [], "morph button")
                if rng.random() < 0.8 and M.fade is not None:
                    for _ in range(46):
                        update(40)
                    eq(M.v[("n", 0, 11)], M.fade, "morph state after fading")
                    M.fade = None
                    rec.n("fades")
        elif k == 13:
            iv = rng.choice([200, 333, 500, 1000, 2500, 4000])
            note("taps", iv)
            while lasttap is not None and ck.ms - lasttap <= 3000:
                update(100)
            do(bytes([176, 30, 1]), [], "tap")
            t0 = ck.ms
            do(bytes([176, 30, 0]), [], "tap")
            while ck.ms - t0 < iv:
                update(min(50, iv - ck.ms + t0))
            do(bytes([176, 30, 1]), [], "tap")
            do(bytes([176, 30, 0]), [], "tap")
            lasttap = ck.ms
            if iv <= 3000:
                setbpm(60000 / iv)
                if bpm[0] > 256 and dev.dump()[1]["bpm"] == 256:
                    bpm[0] = 256    # the parameter cannot express more
                eq(dev.dump()[1]["bpm"], bpm[0], "tempo tapped")
        elif k == 14:
            rec.n("foreign")
            m = rng.choice([PRE[:3] + bytes([9, 2, 127, 65, 0, 50, 3, 247]), bytes([144, 60, 100]), bytes([177, 50, 1]), bytes([193, 5]), PRE + bytes([3, 127, 65, 0, 50, 3, 247]), IN + bytes([66, 0, 50, 3, 247]),
                            bytes([240, 247]), IN + bytes([247]), bytes([248]), IN + bytes([126, 0, 63, 2, 1, 15, 247]), bytes([224, 1, 2])])
            note("foreign", m.hex())
            do(m, [], "foreign message")
        else:
            ms = [IN + bytes([65, 0, 50, 3, 247]), IN + bytes([1, 0, 50, 3, 0, 1, 247]), bytes([176, 50, 1]), bytes([176, 99, 1]), M.msg(NAME), IN + bytes([126, 0, 64, 2, 1, 15, 247]), bytes([192, 4]), bytes([176, 31, 1])]
            note("names")
            m = rng.choice(ms)
            p = dev.props([m])[0]
            check(p is not None and str(p["name"]).startswith("Kemper"), lambda: "no description of message %s: %r" % (m.hex(), p))
            norm(dev.take(), [], "asking for a message's description")
        if rng.random() < 0.3:
            dumpcheck()
    # let fading end
    if M.fade is not None:
        for _ in range(46):
            update(40)
    dumpcheck()
    rec.sig(repr(hist))


def FIXED(tier):
    return [("banks", 0), ("updown", 0), ("own", 0)]


def run_fixed(case, rec, tier):
    ck = Clock()
    dev = vdev.VDev(ck, simulateMorphBug=True)
    dev.step([IN + bytes([126, 0, 64, 2, 1, 127, 247])])
    dev.take()

    def reported(r, why):
        o = [m for m in dev.take() if m[0] in (0xb0, 0xc0) or m[:10] == OUT + bytes([3, 0, 0, 1])]
        check(o[:2] == [bytes([176, 32, r >> 7]), bytes([192, r & 127])], lambda: "%s: rig %d is reported as %r" % (why, r, o))
        eq(dev.dump()[1]["rig"], r, why)
        eq(dev.get(NAME)[0], rigname(r), why + ": name")
        rec.n("fixed_rigs")

    if case[0] == "banks":
        for r in range(625):
            ck.ms += 7
            b = (r * 7 + 3) % 125
            dev.step([bytes([176, 47, b]), bytes([176, 50 + r % 5, 1]), bytes([176, 50 + r % 5, 0])], update=False)
            reported(b * 5 + r % 5, "selecting rig %d of bank %d" % (r % 5, b))
    elif case[0] == "updown":
        for r in range(625):
            ck.ms += 7
            dev.rig(r)
            dev.take()
            for c, d in ((48, 5), (49, 0), (49, -5), (48, 0)):
                dev.step([bytes([176, c, 0])], update=False)
                reported((r + d) % 625, "bank key %d from rig %d" % (c, r))
    else:
        dev.rig(624)
        dev.take()
        for r in range(625):
            ck.ms += 7
            dev.rig(r)
            reported(r, "selecting rig %d at the device" % r)
    rec.sig(case)
