"""A simulated Kemper Profiler Player, written from the device's protocol (independent of the firmware and of the web emulator)."""
import random

SLOTS = [0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d]
BIDIR = [(p, a) for p in (0x32, 0x33, 0x34, 0x35, 0x38, 0x3a) for a in (0, 3)]
TYPES = [0, 1, 4, 9, 11, 17, 23, 33, 37, 41, 49, 57, 60, 64, 71, 81, 97, 101, 113, 121, 129, 145, 150, 162, 177, 179, 193]
SWITCH_CC = {17: 0x32, 18: 0x33, 19: 0x34, 20: 0x35, 22: 0x38, 24: 0x3a, 26: 0x3c, 27: 0x3c, 28: 0x3d, 29: 0x3d}
PRE = b"\xf0\x00\x20\x33"


class Device:
    def __init__(self, W, seed, inport, outport, rig=0):
        self.W, self.seed = W, seed
        self.link = True
        self.inport, self.outport = inport, outport
        outport.on_write = self.written
        self.num, self.str, self.rig = {}, {}, rig
        self.presel = None
        self.lease_until = None
        self.next_sense = None
        self.tuner = False
        self.serial = 0
        self.log = []           # commands understood: (ms, name, args)
        self.requests = 0
        self.latency = None     # function() -> ms, or None for immediate
        self.pipe = []
        self.senses = 0
        self.num[(0x7f, 0x7e)] = 0
        self.num[(0x7d, 0x54)] = 0
        self.num[(0x7c, 0x0f)] = 8192
        self.num[(0x0a, 4)] = 1
        self.edits = {}         # rig -> {key: value} changes made to rigs
        self.load(rig)

    # ---- content
    def content(self, rig):
        r = random.Random("%s:%d" % (self.seed, rig))
        d = {}
        for p in SLOTS:
            d[(p, 0)] = r.choice(TYPES)
            d[(p, 3)] = r.choice([0, 1])
        d[(4, 0)] = r.choice([60, 120, 180, 250]) * 64
        d[(4, 1)] = r.randrange(16384)
        d[(4, 4)] = r.choice([0, 60, 64, 70])
        d[(0x0a, 4)] = r.randrange(16384)
        d[(0x0a, 2)] = r.choice([0, 1])
        d[(0x0c, 2)] = r.choice([0, 1])
        d[(0, 0x0b)] = 0
        for a in (1, 6, 11, 16, 21, 26, 36, 41):
            d[(5, a)] = r.choice([0, 1])
        d.update(self.edits.get(rig, {}))
        return d, {1: "Rig %d %s" % (rig, r.choice(["Clean", "Lead", ""])), 0x10: "Amp%d" % r.randrange(50), 0x20: "Cab%d" % r.randrange(50), 4: "c%d" % r.randrange(9)}

    quiet_same = False      # do not report the rig if it is the same as before

    def load(self, rig):
        same = getattr(self, "rig", None) == rig
        self.rig = rig
        self.serial += 1
        n, s = self.content(rig)
        s[3] = "date %d %d" % (rig, self.serial)
        for k, v in n.items():
            if self.num.get(k) != v:
                self.num[k] = v
                if k in BIDIR:
                    self.report(k)
        old = self.str.get(1)
        self.str.update(s)
        if old != s[1]:
            self.report_str(1)
        if not (same and self.quiet_same):
            self.report_rig()

    # ---- sending
    def send(self, m):
        if not self.link:
            return
        if self.latency:
            t = self.W.clock.ms + self.latency()
            if self.pipe and self.pipe[-1][0] > t:
                t = self.pipe[-1][0]
            self.pipe.append((t, m))
        else:
            self.inport.feed(m)

    @property
    def leased(self):
        return self.lease_until is not None and self.W.clock.ms < self.lease_until

    def msg_num(self, k):
        v = self.num.get(k, 0)
        return PRE + bytes([0, 0, 1, 0, k[0], k[1], v >> 7, v & 127]) + b"\xf7"

    def msg_str(self, a):
        return PRE + bytes([0, 0, 3, 0, 0, a]) + self.str.get(a, "none").encode() + b"\0\xf7"

    def report(self, k):
        if self.leased:
            self.send(self.msg_num(k))

    def report_str(self, a):
        if self.leased:
            self.send(self.msg_str(a))

    def report_rig(self, force=False):
        if self.leased or force:
            self.send(bytes([0xB0, 32, self.rig >> 7]))
            self.send(bytes([0xC0, self.rig & 127]))

    def update(self):
        now = self.W.clock.ms
        while self.pipe and self.pipe[0][0] <= now:
            t, m = self.pipe.pop(0)
            if self.link:
                self.inport.feed(m)
        if self.leased and (self.next_sense is None or now >= self.next_sense):
            self.senses += 1
            self.send(PRE + bytes([0, 0, 0x7e, 0, 0x7f, self.senses & 127]) + b"\xf7")
            self.next_sense = now + 500

    # ---- device side changes
    def set(self, k, v):
        if k == (0x7f, 0x7e):
            return self.set_tuner(v)
        if self.num.get(k) == v:
            return
        self.num[k] = v
        if k[0] != 0x7f:            # the system is not part of the rig
            self.edits.setdefault(self.rig, {})[k] = v
        if k in BIDIR or k in ((0x7d, 0x54), (0x7c, 0x0f), (0x7c, 0)):
            self.report(k)

    def set_tuner(self, v):
        if self.num[(0x7f, 0x7e)] != v:
            self.num[(0x7f, 0x7e)] = v
            self.report((0x7f, 0x7e))

    def store(self):
        """The rig was edited/stored: its date changes"""
        self.serial += 1
        self.str[3] = "date %d %d" % (self.rig, self.serial)

    # ---- receiving
    def written(self, port, data):
        if not self.link:
            return
        from .rig import parse_stream
        for m in parse_stream(data):
            self.handle(m)

    def handle(self, m):
        ms = self.W.clock.ms
        if m[0] == 0xF0:
            if m[:6] != PRE + b"\x02\x7f" and m[:6] != PRE + b"\x00\x7f":
                return
            b = m[6:-1]
            if len(b) < (4 if b[:1] in (b"\x41", b"\x43") else 6):
                return                      # not understood
            fn = b[0]
            if fn == 0x41:
                self.requests += 1
                self.send(self.msg_num((b[2], b[3])))
            elif fn == 0x43:
                self.requests += 1
                self.send(self.msg_str(b[3]))
            elif fn == 0x01:
                k, v = (b[2], b[3]), (b[4] << 7) | b[5]
                self.log.append((ms, "set", k, v))
                self.set(k, v)
            elif fn == 0x7e:
                self.log.append((ms, "beacon", b[4], b[5]))
                self.lease_until = ms + b[5] * 2000
                if self.next_sense is None or self.next_sense < ms:
                    self.next_sense = ms + 100
                if b[4] & 1:
                    for k in BIDIR:
                        self.report(k)
                    self.report_str(1)
                    for k in ((0x7f, 0x7e), (0x7d, 0x54), (0x7c, 0x0f)):
                        self.report(k)
                    self.report_rig()
            return
        if m[0] == 0xB0:
            c, v = m[1], m[2]
            self.log.append((ms, "cc", c, v))
            if c == 31:
                self.set_tuner(1 if v else 0)
            elif c == 47:
                self.presel = v
            elif 50 <= c <= 54 and v:
                bank = self.presel if self.presel is not None else self.rig // 5
                self.presel = None
                self.load(min(bank, 124) * 5 + c - 50)
            elif c in (48, 49) and v == 0:
                self.load((self.rig + (5 if c == 48 else -5)) % 625)
            elif c in SWITCH_CC:
                self.set((SWITCH_CC[c], 3), 1 if v else 0)
        elif m[0] == 0xC0:
            self.log.append((ms, "pc", m[1]))
