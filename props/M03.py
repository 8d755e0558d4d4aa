"""Encoding and decoding of parameter values: every sent byte and every decoded value against an independent table."""
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "M03"
RULE = ("A case takes 4-20 shipped mappings (plus generated ones: CC, PC, list and two-part mappings) of a fresh firmware, sets sampled or all values on them and "
        "compares every byte written; then requests all of them with two listeners each and sends 20-60 matching, near-miss and foreign messages through the MIDI port; "
        "non-trivial when values were encoded or decoded; signature = the set of (mapping, message) pairs.")
CASES = {"quick": 4000, "thorough": 60000}
FLOORS = {"encoded": 60000, "decoded": 5000, "near_miss": 10000, "strings": 600, "pairs": 800, "half_pairs": 500, "list_sets": 400, "lone_pc": 200}
LEVEL_NOTE = ("Exploration: every value of 7-bit parameters and sampled plus boundary values (in thorough: all values) of 14-bit parameters of each shipped mapping, "
              "byte for byte; decoding is compared with an independent table of addresses.")

KP = "pyswitch.clients.kemper"
MP = KP + ".mappings."
PAGES = [0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d, 0x3c, 0x3d]
SLOTCC = [17, 18, 19, 20, 22, 24, 27, 29, 26, 28]
FREEZE = [0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x71, 0x72, 0x73, 0x72, 0x73]


def table():
    """(key, path, args, set, request, response): set = ("cc", n) | ("nrpn", page, addr) | ("pc",); request = bytes or None;
    response = ("num", page, addr) | ("str", addr) | ("pair",) | ("cc", n)"""
    T = []

    def num(key, path, page, addr, args=(), st="nrpn", req=True, resp=True):
        s = ("nrpn", page, addr) if st == "nrpn" else st
        T.append((key, path, args, s, (0x41, page, addr) if req else None, ("num", page, addr) if resp else None))

    def string(key, path, addr):
        T.append((key, path, (), None, (0x43, 0, addr), ("str", addr)))
    for i in range(10):
        num("state%d" % i, KP + ":KemperMappings.EFFECT_STATE", PAGES[i], 3, (i,), ("cc", SLOTCC[i]))
        num("type%d" % i, KP + ":KemperMappings.EFFECT_TYPE", PAGES[i], 0, (i,), None)
        num("mix%d" % i, MP + "effects:MAPPING_DLY_REV_MIX", PAGES[i], 0x45, (i,))
        num("freeze%d" % i, MP + "freeze:MAPPING_FREEZE", 0x7d, FREEZE[i], (i,))
        num("rotary%d" % i, MP + "rotary:MAPPING_ROTARY_SPEED", PAGES[i], 0x1e, (i,))
    string("rigdate", KP + ":KemperMappings.RIG_DATE", 3)
    string("rigname", KP + ":KemperMappings.RIG_NAME", 1)
    string("ampname", MP + "amp:MAPPING_AMP_NAME", 0x10)
    string("cabname", MP + "cabinet:MAPPING_CABINET_NAME", 0x20)
    string("comment", MP + "rig:MAPPING_RIG_COMMENT", 4)
    num("tunermode", KP + ":KemperMappings.TUNER_MODE_STATE", 0x7f, 0x7e, (), ("cc", 31), False)
    num("tunernote", KP + ":KemperMappings.TUNER_NOTE", 0x7d, 0x54, (), None, False)
    num("tunerdev", KP + ":KemperMappings.TUNER_DEVIANCE", 0x7c, 0x0f, (), None, False)
    num("pulse", MP + "tempo:MAPPING_TEMPO_DISPLAY", 0x7c, 0, (), None, False)
    T.append(("rigid", KP + ":KemperMappings.RIG_ID", (), None, None, ("pair",)))
    num("ampstate", MP + "amp:MAPPING_AMP_STATE", 0x0a, 2)
    num("ampgain", MP + "amp:MAPPING_AMP_GAIN", 0x0a, 4)
    num("cabstate", MP + "cabinet:MAPPING_CABINET_STATE", 0x0c, 2)
    for i, n in enumerate(["TRANSPOSE", "GATE", "COMP", "BOOST", "WAH", "CHORUS", "AIR", "DBL_TRACKER"]):
        num("fixed" + n, MP + "fixed_fx:MAPPING_FIXED_" + n, 5, [1, 6, 11, 16, 21, 26, 36, 41][i])
    for i, n in enumerate(["REC_PLAY_OVERDUB", "STOP", "TRIGGER", "REVERSE", "HALF_SPEED", "CANCEL", "ERASE"]):
        num("loop" + n, MP + "looper:MAPPING_LOOPER_" + n, 0x7d, 88 + i, req=False, resp=False)
    num("rigvol", MP + "rig:MAPPING_RIG_VOLUME", 4, 1)
    num("rigtrans", MP + "rig:MAPPING_RIG_TRANSPOSE", 4, 4)
    num("bpm", MP + "tempo_bpm:MAPPING_TEMPO_BPM", 4, 0)
    for a, n in ((0, "MAIN_VOLUME"), (2, "MONITOR_VOLUME"), (52, "LOOPER_VOLUME"), (36, "SPACE_INTENSITY")):
        num(n, MP + "system:MAPPING_" + n, 0x7f, a)
    num("morphbtn", MP + "morph:MAPPING_MORPH_BUTTON", 0, 0x0b, (), ("cc", 80))
    num("morph", MP + "morph:MAPPING_MORPH_PEDAL", 0, 0x0b, (), ("cc", 11))
    for c, n in ((1, "WAH"), (7, "VOLUME"), (4, "PITCH"), (68, "DELAY_MIX"), (69, "DELAY_FEEDBACK"), (70, "REVERB_MIX"), (71, "REVERB_TIME"), (73, "VOLUME_OUTPUT")):
        T.append(("pedal" + n, MP + "pedals:MAPPING_%s_PEDAL" % n, (), ("cc", c), None, None))
    for i in range(1, 5):
        T.append(("fxbtn%d" % i, MP + "effects:MAPPING_EFFECT_BUTTON", (i,), ("cc", 74 + i), None, None))
    for i in range(5):
        T.append(("rig%d" % i, MP + "select:MAPPING_RIG_SELECT", (i,), ("cc", 50 + i), None, ("pair",)))
    T.append(("bank", MP + "select:MAPPING_BANK_SELECT", (), ("cc", 47), None, ("pair",)))
    T.append(("next", MP + "bank:MAPPING_NEXT_BANK", (), ("cc", 48), None, ("pair",)))
    T.append(("prev", MP + "bank:MAPPING_PREVIOUS_BANK", (), ("cc", 49), None, ("pair",)))
    T.append(("freezeall", MP + "freeze:MAPPING_FREEZE_ALL_GLOBAL", (), ("cc", 35), None, ("cc", 35)))
    T.append(("tap", MP + "tempo:MAPPING_TAP_TEMPO", (), ("cc", 30), None, None))
    T.append(("progchg", "pyswitch.clients.local.mappings.generic:MAPPING_SEND_PROGRAM_CHANGE", (), ("pc",), None, None))
    return T


TABLE = table()
SET2 = {k + str(i) for i in range(6) for k in ("state", "type")} | {"rigname", "tunermode", "tunernote", "tunerdev"}


def nrpn(fn, page, addr, payload=b"", prefix=b"\x02\x7f", inst=0, manu=b"\x00\x20\x33"):
    return rig.sysex(manu, prefix + bytes([fn, inst, page, addr]) + bytes(payload))


def expect_set(s, v):
    if s[0] == "cc":
        return rig.cc(s[1], v)
    if s[0] == "pc":
        return rig.pc(v)
    return nrpn(1, s[1], s[2], [v >> 7, v & 127])


def top(s):
    return 16383 if s[0] == "nrpn" else 127


def run_case(rng, rec, tier):
    W = env.World()
    R = rig.Rig(W, ui=False, protocol=None)
    bidir = rng.random() < 0.25
    if bidir:
        R = rig.Rig(W, ui=False, protocol=W.get(KP + ":KemperBidirectionalProtocol")(30))
    client = R.c.client
    Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
    Two = W.get("pyswitch.controller.client:ClientTwoPartParameterMapping")
    CC = W.get("adafruit_midi.control_change:ControlChange")
    PC = W.get("adafruit_midi.program_change:ProgramChange")
    SysEx = W.get("adafruit_midi.system_exclusive:SystemExclusive")

    class L:
        def __init__(self, key):
            self.key, self.got, self.lost = key, [], 0

        def parameter_changed(self, mapping):
            self.got.append(mapping.value)

        def request_terminated(self, mapping):
            self.lost += 1
    ents = []
    for key, path, args, s, req, resp in rng.sample(TABLE, rng.choice([4, 8, 20])):
        mod, _, name = path.partition(":")
        o = W.imp(mod)
        for part in name.split("."):
            o = getattr(o, part)
        m = o(*args)
        check(o(*args) is m, lambda: "%s%r: asking twice gives different parameters" % (name, args))
        check(all(e[1] is not m for e in ents), lambda: "%s%r shares its parameter object with another one" % (name, args))
        ents.append((key, m, s, req, resp))
    # ---- generated mappings: the user's own configuration
    for i in range(rng.choice([0, 1, 3])):
        c = rng.randrange(128)
        kind = rng.choice(["cc", "pc", "list", "pair", "sx"])
        name = "own%d" % i
        if kind == "cc":
            ents.append((name, Mapping.get(name=name, set=CC(c, 0), response=CC(c, 0)), ("cc", c), None, ("cc", c)))
        elif kind == "pc":
            ents.append((name, Mapping.get(name=name, set=PC(0), response=PC(0)), ("pc",), None, ("pc",)))
        elif kind == "list":
            parts = rng.choices([None, ("cc", c), ("cc", (c + 1) % 128), ("nrpn", 9, c), ("pc",)], k=rng.choice([1, 2, 3]))
            ms = [None if p is None else CC(p[1], 0) if p[0] == "cc" else PC(0) if p[0] == "pc" else SysEx([0, 0x20, 0x33], [2, 0x7f, 1, 0, p[1], p[2]]) for p in parts]
            ents.append((name, Mapping.get(name=name, set=ms), ("list", parts), None, None))
        elif kind == "pair":
            ents.append((name, Two.get(name=name, response=[CC(c, 0), CC((c + 7) % 128, 0)]), None, None, ("ccpair", c, (c + 7) % 128)))
        else:
            ents.append((name, Mapping.get(name=name, set=SysEx([0, 0x20, 0x33], [2, 0x7f, 1, 0, 9, c]), request=SysEx([0, 0x20, 0x33], [2, 0x7f, 0x41, 0, 9, c]),
                                           response=SysEx([0, 0x20, 0x33], [2, 0x7f, 1, 0, 9, c])), ("nrpn", 9, c), (0x41, 9, c), ("num", 9, c)))
    lis = {}
    for key, m, s, req, resp in ents:
        lis[key] = [L(key), L(key)]
    if bidir:
        for key, m, *_ in ents:
            for l in lis[key]:
                client.register(m, l)
    R.sent()
    # ------------------------------------------------------------ encode
    sigs = []
    setters = [e for e in ents if e[2] is not None]
    nval = 0

    def setv(e, v):
        key, m, s, req, resp = e
        had = m.value
        client.set(m, v)
        got = [x for x in R.sent_msgs() if not (x[0] == 0xF0 and x[6] == 0x7e)]
        if s[0] == "list":
            want = [expect_set(p, x) for p, x in zip(s[1], v) if p is not None]
        else:
            want = [expect_set(s, v)]
        if got != want:
            raise Violation("setting %s to %r wrote %s, expected %s" % (key, v, [x.hex() for x in got], [x.hex() for x in want]))
        rec.n("encoded")
    plan = []
    for e in setters:
        s = e[2]
        if s[0] == "list":
            vals = [[rng.choice([0, 1, 127, 128, 16383, rng.randrange(16384)]) % ((top(p) + 1) if p else 1) for p in s[1]] for _ in range(5)]
            rec.n("list_sets", 5)
        elif top(s) == 127:
            vals = list(range(128)) if rng.random() < 0.2 else [0, 1, 63, 64, 126, 127] + [rng.randrange(128) for _ in range(4)]
        elif tier == "thorough" and rng.random() < 0.02:
            vals = list(range(16384))
        else:
            vals = [0, 1, 127, 128, 129, 255, 256, 8191, 8192, 16256, 16382, 16383] + [rng.randrange(16384) for _ in range(10)]
        rng.shuffle(vals)
        plan += [(e, v) for v in vals]
    if rng.random() < 0.5:
        rng.shuffle(plan)
    for e, v in plan:
        setv(e, v)
    for e, m, *_ in ents:
        for l in lis[e]:
            del l.got[:]
    # ------------------------------------------------------------ request
    waiting = {}      # key -> listeners waiting (or permanent)
    perm = set()
    R.sent()
    order = list(ents)
    rng.shuffle(order)

    def ask(e, both=True):
        key, m, s, req, resp = e
        if resp is None:
            client.request(m, lis[key][0])
            client.register(m, lis[key][0])
            eq(R.sent_msgs(), [], "messages sent when requesting %s, which cannot be requested" % key)
            return
        permanent = req is None or (bidir and key in SET2)
        if permanent:
            if not bidir:
                for l in lis[key]:
                    client.register(m, l)
            client.request(m, lis[key][0])
            eq(R.sent_msgs(), [], "messages sent when requesting %s, which is reported by the device itself" % key)
            waiting[key] = True
            perm.add(key)
            return
        if m.depends is not None:
            m.depends = None      # dependencies are M05
        for l in lis[key]:
            client.request(m, l)
        want = [] if waiting.get(key) else [nrpn(*req)]
        got = R.sent_msgs()
        if got != want:
            raise Violation("requesting %s wrote %s, expected %s" % (key, [x.hex() for x in got], [x.hex() for x in want]))
        waiting[key] = True
    for e in order:
        ask(e)
    first = {}        # pending first halves
    cur = {e[0]: e[1].value for e in ents}
    R.settle()
    R.sent()

    def feed(msg, hits):
        """hits: {key: value} expected"""
        for l2 in lis.values():
            for l in l2:
                del l.got[:]
        R.feed(msg)
        R.settle()
        for key, m, s, req, resp in ents:
            exp = [hits[key]] if key in hits else []
            for l in lis[key]:
                if l.got != exp:
                    raise Violation("message %s: %s (waiting: %r) was notified with %r, expected %r" % (msg.hex(), key, bool(waiting.get(key)), l.got, exp))
                check(not l.lost, lambda: "%s reported as lost although time did not pass" % key)
            if key in hits:
                cur[key] = hits[key]
                rec.n("decoded")
                if key not in perm:
                    waiting[key] = False
            if m.value != cur[key]:
                raise Violation("message %s: value of %s is %r, expected %r" % (msg.hex(), key, m.value, cur[key]))
        rec.ev("rx", msg.hex(), hits)
    heard = [e for e in ents if e[4] is not None]
    for _ in range(rng.choice([20, 60]) if heard else 0):
        r = rng.random()
        if r < 0.12:
            e = rng.choice(heard)
            ask(e)
            continue
        e = rng.choice(heard)
        resp = e[4]
        if r < 0.45 and resp[0] in ("num", "str"):
            # near misses: exactly one identifying field differs
            page, addr = (resp[1], resp[2]) if resp[0] == "num" else (0, resp[1])
            fn = 1 if resp[0] == "num" else 3
            f = [fn, 0, page, addr]
            k = rng.choice([0, 0, 1, 2, 3, 4])
            manu = b"\x00\x20\x33"
            if k == 4:
                manu = rng.choice([b"\x00\x20\x32", b"\x00\x20", b"\x00\x21\x33", b"\x33", b"\x00\x20\x33"[::-1]])
            else:
                f[k] = rng.choice([x for x in (0, 1, 2, 3, 6, 7, 0x40, 0x41, 0x42, 0x43, 0x7e, 0x7f, f[k] ^ 1, f[k] ^ 0x40, rng.randrange(128)) if x != f[k]])
            payload = bytes([rng.randrange(128), rng.randrange(128)]) if fn == 1 else b"Foo\x00"
            msg = rig.sysex(manu, rng.choice([b"\x00\x00", b"\x02\x7f"]) + bytes(f) + payload)
            if f[0] == 0x7e:
                continue      # life signs of the device are K01
            hits = {}
            for k2, m2, s2, rq2, rs2 in ents:      # may be the address of another parameter
                if manu != b"\x00\x20\x33" or f[1] != 0 or rs2 is None or not waiting.get(k2):
                    continue
                if rs2[0] == "num" and f[0] == 1 and (rs2[1], rs2[2]) == (f[2], f[3]):
                    hits[k2] = payload[-2] * 128 + payload[-1]
                if rs2[0] == "str" and f[0] == 3 and (0, rs2[1]) == (f[2], f[3]):
                    hits[k2] = payload[:-1].decode()
            rec.n("near_miss")
            feed(msg, hits)
            continue
        if resp[0] == "num":
            v = rng.choice([0, 1, 127, 128, 8192, 16383, rng.randrange(16384)])
            msg = nrpn(1, resp[1], resp[2], [v >> 7, v & 127], prefix=rng.choice([b"\x00\x00", b"\x02\x7f", b"\x00\x7f"]))
            hits = {k2: v for k2, m2, s2, rq2, rs2 in ents if rs2 and rs2[:3] == ("num", resp[1], resp[2]) and waiting.get(k2)}
            sigs.append((e[0], v))
            feed(msg, hits)
        elif resp[0] == "str":
            txt = "".join(chr(rng.randrange(32, 127)) for _ in range(rng.choice([0, 1, 2, 8, 32])))
            if rng.random() < 0.1:
                txt = "".join(chr(rng.randrange(1, 128)) for _ in range(5))
            msg = nrpn(3, 0, resp[1], txt.encode() + b"\x00", prefix=rng.choice([b"\x00\x00", b"\x02\x7f"]))
            hits = {k2: txt for k2, m2, s2, rq2, rs2 in ents if rs2 and rs2 == ("str", resp[1]) and waiting.get(k2)}
            rec.n("strings")
            sigs.append((e[0], txt))
            feed(msg, hits)
        else:
            # controllers, programs and pairs
            nums = {"pair": [32], "cc": [resp[1]] if resp[0] == "cc" else [], "pc": [], "ccpair": list(resp[1:])}[resp[0]]
            for _ in range(rng.choice([1, 2, 3])):
                v = rng.choice([0, 1, 4, 127, rng.randrange(128)])
                hits = {}
                if (resp[0] in ("pair", "pc") and rng.random() < 0.5) or not nums:
                    msg = rig.pc(v)
                    lone = True
                    for k2, m2, s2, rq2, rs2 in ents:
                        if rs2 is None or not waiting.get(k2):
                            continue
                        if rs2[0] == "pc":
                            hits[k2] = v
                        elif rs2[0] == "pair" and k2 in first:
                            hits[k2] = first.pop(k2) * 128 + v
                            rec.n("pairs")
                            lone = False
                    if lone and resp[0] == "pair":
                        rec.n("lone_pc")
                else:
                    n = rng.choice(nums)
                    if rng.random() < 0.2:
                        n = (n + rng.choice([1, 127, 64])) % 128
                    msg = rig.cc(n, v)
                    for k2, m2, s2, rq2, rs2 in ents:
                        if rs2 is None or not waiting.get(k2):
                            continue
                        if rs2[0] == "cc" and rs2[1] == n:
                            hits[k2] = v
                        elif rs2[0] == "pair" and n == 32:
                            first[k2] = v
                            rec.n("half_pairs")
                        elif rs2[0] == "ccpair":
                            if n == rs2[1]:
                                first[k2] = v
                            elif n == rs2[2] and k2 in first:
                                hits[k2] = first.pop(k2) * 128 + v
                                rec.n("pairs")
                sigs.append((e[0], msg))
                feed(msg, hits)
    if plan or sigs:
        rec.sig((len(plan), sorted(e[0] for e in ents), sigs[:20]))
