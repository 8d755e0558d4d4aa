"""Requests, answers, losses: a nondeterministic trace automaton over the request log of the real client."""
import copy
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "M04"
RULE = ("A case is a running controller with 1-6 parameters and 1-6 consumers (Callback objects updated by the controller and listeners asking at random times), a device that "
        "answers in time, late, twice, out of order, with foreign messages or not at all, and random time steps around the lifetime of requests; non-trivial when requests "
        "were sent; signature = the sequence of observed request/answer/loss events.")
CASES = {"quick": 3000, "thorough": 50000}
FLOORS = {"requests": 8000, "answers": 4000, "losses": 2000, "late": 300, "duplicate": 600, "foreign": 1000, "shared_requests": 800, "notifications": 5000, "reasked": 1500}
LEVEL_NOTE = ("Exploration: the automaton accepts exactly the request/notification traces allowed by the property; the moment of loss is left open between the lifetime and 1.5 "
              "times the lifetime. Requests made from inside a notification are not part of the workload.")


class Port:
    def __init__(self, W, log):
        self.W, self.log, self.q = W, log, []

    def receive(self):
        if not self.q:
            return None
        m = self.q.pop(0)
        self.log.append(("rx", self.W.clock.ms, m[0]))
        return m[1]

    def send(self, m):
        if m.channel is None:
            m.channel = 0
        self.log.append(("send", self.W.clock.ms, bytes(m.__bytes__())))


class St:
    """One possible state of the specification automaton."""
    def __init__(self, spec):
        self.spec = spec
        self.out = {}            # k -> [t0, [waiters]]
        self.deps = {}           # dependent k -> consumers
        self.last = {}           # dependent k -> last value of its source
        self.val = {k: None for k in spec.params}

    def clone(self):
        n = St.__new__(St)
        n.spec = self.spec
        n.out = {k: [t, list(w)] for k, (t, w) in self.out.items()}
        n.deps = {k: list(v) for k, v in self.deps.items()}
        n.last = dict(self.last)
        n.val = dict(self.val)
        return n

    def key(self):
        return repr((sorted((k, t, w) for k, (t, w) in self.out.items()), sorted(self.deps.items()), sorted(self.last.items()), sorted(self.val.items())))

    def register(self, k, w, t, ev):
        if k not in self.out:
            self.out[k] = [t, []]
            for b in self.spec.params[k]["req"]:
                ev.append(("send", b))
        if w not in self.out[k][1]:
            self.out[k][1].append(w)

    def ask(self, c, k, t, ev):
        p = self.spec.params[k]
        if p["perm"]:
            return
        if p["dep"]:
            self.deps.setdefault(k, [])
            if c not in self.deps[k]:
                self.deps[k].append(c)
                self.last.pop(k, None)      # a new consumer needs the value, too
            self.register(p["dep"], ("dep", k), t, ev)
        else:
            self.register(k, c, t, ev)

    def loss_of(self, c, k, ev):
        ev.append(("lost", c, k))
        if self.spec.clears[c]:
            self.val[k] = None

    def lose(self, k, ev):
        t, ws = self.out.pop(k)
        for w in ws:
            if isinstance(w, tuple):
                d = w[1]
                self.last[d] = None
                for c in self.deps.get(d, []):
                    self.loss_of(c, d, ev)
            else:
                self.loss_of(w, k, ev)

    def rx(self, msg, t, ev):
        for k, p in self.spec.params.items():
            v = p["dec"](msg)
            if v is None:
                continue
            if p["perm"]:
                self.val[k] = v
                for c in p["perm_listeners"]:
                    ev.append(("note", c, k, v))
            elif k in self.out:
                self.val[k] = v
                _, ws = self.out[k]
                del self.out[k]
                for w in ws:
                    if isinstance(w, tuple):
                        d = w[1]
                        if self.last.get(d) != v:
                            self.last[d] = v
                            for c in self.deps.get(d, []):
                                self.register(d, c, t, ev)
                    else:
                        ev.append(("note", w, k, v))


class Monitor:
    def __init__(self, spec, lifetime, rec):
        self.spec, self.life, self.rec = spec, lifetime, rec
        self.states = [St(spec)]
        self.maxstates = 1

    def step(self, what, kind, args, got, t):
        """kind: ask/rx/idle. got: the events observed after it. Filters the possible states."""
        got = sorted(map(repr, got))
        new, seen, wants = [], set(), []
        for s in self.states:
            expired = [k for k, (t0, _) in s.out.items() if t > t0 + self.life]
            for mask in range(1 << len(expired)):
                n = s.clone()
                ev = []
                for i, k in enumerate(expired):
                    if mask >> i & 1:
                        n.lose(k, ev)
                if kind == "ask":
                    c, ks = args
                    if mask:
                        continue
                    for k in ks:
                        n.ask(c, k, t, ev)
                elif kind == "rx":
                    n.rx(args, t, ev)
                want = sorted(map(repr, ev))
                if want == got:
                    kk = n.key()
                    if kk not in seen:
                        seen.add(kk)
                        new.append(n)
                elif mask == 0:
                    wants.append(want)
        if not new:
            raise Violation("%s at %d ms: observed %s, expected %s%s" % (what, t, got, wants[0] if wants else [],
                            " (or losses of requests older than %d ms)" % self.life if any(t > t0 + self.life for s in self.states for t0, _ in s.out.values()) else ""))
        self.states = new
        self.maxstates = max(self.maxstates, len(new))

    def tick_end(self, t, values):
        ok = [s for s in self.states if not any(t > t0 + self.life + self.life // 2 for t0, _ in s.out.values())]
        if not ok:
            k = [(k, t - t0) for k, (t0, _) in self.states[0].out.items()]
            raise Violation("at %d ms requests are neither answered nor reported as lost (age in ms): %r" % (t, k))
        ok2 = [s for s in ok if s.val == values]
        if not ok2:
            raise Violation("at %d ms parameter values are %r, expected %r" % (t, values, ok[0].val))
        self.states = ok2


class Spec:
    def __init__(self):
        self.params, self.clears = {}, {}


def nr(fn, page, addr, payload=b"", prefix=b"\x02\x7f"):
    return rig.sysex(b"\x00\x20\x33", prefix + bytes([fn, 0, page, addr]) + bytes(payload))


def drive(rng, rec, tier, dependents):
    start = rng.choice([0, 100000])
    W = env.World(start_ms=start)
    log = []
    midi = W.imp("pyswitch.controller.midi")
    cl = W.imp("pyswitch.controller.client")
    Mapping = cl.ClientParameterMapping
    CC = W.get("adafruit_midi.control_change:ControlChange")
    SysEx = W.get("adafruit_midi.system_exclusive:SystemExclusive")
    Callback = W.get("pyswitch.controller.callbacks:Callback")
    NR = W.get("pyswitch.clients.kemper:KemperNRPNMessage")
    km = W.imp("pyswitch.clients.kemper").KemperMappings
    life = rng.choice([2000, 2000, 2000, 500, 5000])
    cfg = {"maxRequestLifetimeMillis": life} if life != 2000 else {}
    cfg["updateInterval"] = rng.choice([200, 50, 1000])
    bidir = rng.random() < 0.25
    protocol = W.get("pyswitch.clients.kemper:KemperBidirectionalProtocol")(30) if bidir else None
    port = Port(W, log)
    R = rig.Rig(W, ui=False, protocol=protocol, config=cfg, init=False,
                routings=[midi.MidiRouting(source=port, target=midi.MidiRouting.APPLICATION), midi.MidiRouting(source=midi.MidiRouting.APPLICATION, target=port)])
    client = R.c.client
    spec = Spec()
    maps = {}

    def numdec(page, addr):
        head = bytes([1, 0, page, addr])

        def dec(b):
            return b[-3] * 128 + b[-2] if b[0] == 0xF0 and b[1:4] == b"\x00\x20\x33" and b[6:10] == head else None
        return dec

    def strdec(addr):
        head = bytes([3, 0, 0, addr])

        def dec(b):
            return b[10:-2].decode() if b[0] == 0xF0 and b[1:4] == b"\x00\x20\x33" and b[6:10] == head else None
        return dec

    def add(k, m, req, dec, answer, dep=None, perm=False):
        maps[k] = m
        spec.params[k] = {"req": req, "dec": dec, "answer": answer, "dep": dep, "perm": perm, "perm_listeners": []}

    def numeric(k, page, addr, dep=None, twice=False):
        rq = NR(0x41, page, addr)
        reqs = [nr(0x41, page, addr)]
        if twice:
            rq = [NR(0x41, page, addr + 1), None, rq]
            reqs = [nr(0x41, page, addr + 1)] + reqs
        m = Mapping.get(name=k, request=rq, response=NR(1, page, addr), depends=maps[dep] if dep else None)
        add(k, m, reqs, numdec(page, addr), lambda v: nr(1, page, addr, [v >> 7, v & 127], rng.choice([b"\0\0", b"\x02\x7f"])), dep)

    def shipped(k):
        if k == "date":
            add(k, km.RIG_DATE(), [nr(0x43, 0, 3)], strdec(3), lambda v: nr(3, 0, 3, ("D%d" % v).encode() + b"\0"))
        elif k == "name":
            perm = bidir
            if "date" not in maps:
                shipped("date")
            add(k, km.RIG_NAME(), [nr(0x43, 0, 1)], strdec(1), lambda v: nr(3, 0, 1, ("N%d" % v).encode() + b"\0"), None if bidir else "date", perm)
        elif k in ("amp", "cab"):
            if "date" not in maps:
                shipped("date")
            mod = W.imp("pyswitch.clients.kemper.mappings." + ("amp" if k == "amp" else "cabinet"))
            a = 0x10 if k == "amp" else 0x20
            add(k, mod.MAPPING_AMP_NAME() if k == "amp" else mod.MAPPING_CABINET_NAME(), [nr(0x43, 0, a)], strdec(a),
                lambda v: nr(3, 0, a, ("A%d" % v).encode() + b"\0"), "date")
        elif k == "fxA":
            add(k, km.EFFECT_STATE(0), [nr(0x41, 0x32, 3)], numdec(0x32, 3), lambda v: nr(1, 0x32, 3, [v >> 7, v & 127]), None, bidir)
        elif k == "fxDly":
            add(k, km.EFFECT_STATE(6), [nr(0x41, 0x3c, 3)], numdec(0x3c, 3), lambda v: nr(1, 0x3c, 3, [v >> 7, v & 127]))
        elif k == "tuner":
            add(k, km.TUNER_MODE_STATE(), [], numdec(0x7f, 0x7e), lambda v: nr(1, 0x7f, 0x7e, [v >> 7, v & 127]), None, True)
        elif k in ("morph", "morphb"):
            mod = W.imp("pyswitch.clients.kemper.mappings.morph")
            add(k, mod.MAPPING_MORPH_PEDAL() if k == "morph" else mod.MAPPING_MORPH_BUTTON(), [nr(0x41, 0, 0x0b)], numdec(0, 0x0b),
                lambda v: nr(1, 0, 0x0b, [v >> 7, v & 127]))
        elif k == "cc":
            m = Mapping.get(name="ccown", request=CC(99, 1), response=CC(98, 0))
            add(k, m, [rig.cc(99, 1)], lambda b: b[2] if b[0] == 0xB0 and b[1] == 98 else None, lambda v: rig.cc(98, v & 127))
    if dependents:
        if rng.random() < 0.5:
            for k in rng.sample(["name", "amp", "cab"], rng.choice([1, 2, 3])):
                shipped(k)
        if rng.random() < 0.7 or not maps:
            numeric("src", 9, 1)
            for i in range(rng.choice([1, 2, 3])):
                numeric("dep%d" % i, 9, 10 + i, "src")
            if rng.random() < 0.3:
                numeric("src2", 9, 2)
                numeric("dep9", 9, 20, "src2")
        if rng.random() < 0.4:
            shipped("fxDly")
    else:
        for k in rng.sample(["date", "fxA", "fxDly", "tuner", "morph", "morphb", "cc", "n1", "n2", "n3"], rng.choice([1, 2, 4, 6])):
            if k[0] == "n":
                numeric(k, 9, 5 * int(k[1]), twice=(k == "n3"))
            else:
                shipped(k)
    keys = list(maps)
    byobj = {id(m): k for k, m in maps.items()}

    class Cb(Callback):
        def __init__(self, name, ks):
            Callback.__init__(self)
            self.name, self.ks, self.active = name, ks, True
            for k in ks:
                self.register_mapping(maps[k])

        def update(self):
            if self.active:
                log.append(("ask", W.clock.ms, self.name, tuple(self.ks)))
                Callback.update(self)
                log.append(("asked", W.clock.ms))

    class L:
        def __init__(self, name):
            self.name = name

        def parameter_changed(self, mapping):
            log.append(("note", self.name, byobj[id(mapping)], mapping.value))

        def request_terminated(self, mapping):
            log.append(("lost", self.name, byobj[id(mapping)], mapping.value))
    cbs, raws = [], []
    ncons = rng.choice([1, 2, 3, 6])
    for i in range(ncons):
        ks = rng.sample(keys, rng.choice([1, 1, 2, len(keys)]) if len(keys) > 1 else 1)
        ks = list(dict.fromkeys(ks))
        if rng.random() < 0.7 or not dependents and not cbs:
            cb = Cb("cb%d" % i, ks)
            cbs.append(cb)
            spec.clears[cb.name] = True
        else:
            l = L("raw%d" % i)
            l.ks = ks
            raws.append(l)
            spec.clears[l.name] = False
    # permanent listeners are registered in the order of initialization
    for cb in cbs:
        cb.init(R.c, L(cb.name))
        for k in cb.ks:
            if spec.params[k]["perm"]:
                spec.params[k]["perm_listeners"].append(cb.name)
    for l in raws:
        for k in l.ks:
            client.register(maps[k], l)
            if spec.params[k]["perm"]:
                spec.params[k]["perm_listeners"].append(l.name)
    for k, p in spec.params.items():      # registered parameters only: others never get an answer
        if p["perm"] and not p["perm_listeners"]:
            p["dec"] = lambda b: None
    R.c.init()
    # start values as the firmware has them
    mon = Monitor(spec, life, rec)
    for k in keys:
        mon.states[0].val[k] = maps[k].value
    sigs = []
    sent_once = set()
    hist_answers = []
    silent = {k: rng.random() < 0.25 for k in keys}       # this device does not answer these for now
    todo = []           # scheduled device answers (time, bytes, key)

    def parse_log():
        """Splits the log into steps and feeds the automaton."""
        i = 0
        cur = ("idle", None, "idle", [])
        steps = []
        t = W.clock.ms

        def flush():
            steps.append(cur)
        for e in log:
            if e[0] == "rx":
                flush()
                cur = ("rx", e[2], "message %s received" % e[2].hex(), [])
            elif e[0] == "ask":
                flush()
                cur = ("ask", (e[2], e[3]), "%s asking for %r" % (e[2], e[3]), [])
            elif e[0] == "asked":
                flush()
                cur = ("idle", None, "after asking", [])
            elif e[0] == "send":
                b = e[2]
                if bidir and len(b) > 6 and b[0] == 0xF0 and b[6] == 0x7e:
                    continue
                cur[3].append(("send", b))
            elif e[0] == "note":
                cur[3].append(("note", e[1], e[2], e[3]))
                rec.n("notifications")
            else:
                if spec.clears[e[1]]:
                    check(e[3] is None, lambda: "the stale value %r of %s is still there when its loss is reported" % (e[3], e[2]))
                cur[3].append(("lost", e[1], e[2]))
        flush()
        del log[:]
        for kind, args, what, got in steps:
            if kind == "idle" and not got:
                continue
            waiting = sum(len(w) for _, w in mon.states[0].out.values())
            before = set(mon.states[0].out)
            mon.step(what, kind, args, got, t)
            after = set(mon.states[0].out)
            rec.ev(t, what, got)
            if kind == "rx":
                hit = [k for k, p in spec.params.items() if p["dec"](args) is not None]
                if any(k in before for k in hit):
                    rec.n("answers")
                elif hit and any(x[1] == args for x in hist_answers):
                    rec.n("unasked_answers")
            for g in got:
                if g[0] == "send":
                    rec.n("requests")
                elif g[0] == "lost":
                    rec.n("losses")
            if kind == "ask" and any(k in before for k in args[1]):
                rec.n("shared_requests")
            # schedule the reaction of the device
            for k in after - before:
                if k in sent_once:
                    rec.n("reasked")
                sent_once.add(k)
                if silent[k]:
                    continue
                d = rng.choice([0, 1, 10, 100, 300, 300, 1000, life - 1, life, life + 1, int(life * 1.4), life * 2])
                v = rng.choice([0, 1, 2, 3, rng.randrange(16384)])
                if dependents and rng.random() < 0.5:
                    v = 1
                b = spec.params[k]["answer"](v)
                todo.append((t + d, b))
                if d > life:
                    rec.n("late")
                if rng.random() < 0.2:
                    todo.append((t + d + rng.choice([0, 1, 50, 400]), b))
                    rec.n("duplicate")
            if dependents:
                for k in after - before:
                    if spec.params[k]["dep"]:
                        rec.n("dep_requests")
                for g in got:
                    if g[0] == "note" and spec.params[g[2]]["dep"]:
                        rec.n("dep_notes")
                    if g[0] == "lost" and spec.params[g[2]]["dep"]:
                        rec.n("dep_losses")
            sigs.append((kind, tuple(map(repr, got))))

    def mkmsg(b):
        port.q.append((b, _to_msg(W, b)))

    for step in range(rng.choice([10, 30, 80] if tier == "quick" else [30, 80, 200])):
        r = rng.random()
        if r < 0.1 and cbs:
            cb = rng.choice(cbs)
            cb.active = not cb.active or rng.random() < 0.3
        elif r < 0.35 and raws:
            l = rng.choice(raws)
            k = rng.choice(l.ks)
            log.append(("ask", W.clock.ms, l.name, (k,)))
            client.request(maps[k], l)
            log.append(("asked", W.clock.ms))
            parse_log()
        elif r < 0.45:
            k = rng.choice(keys)
            silent[k] = not silent[k]
        elif r < 0.55:
            # messages of foreign parameters or unexpected ones
            b = rng.choice([nr(1, 9, 99, [1, 1]), nr(0x41, 9, 5), rig.cc(97, 3), rig.pc(5), nr(3, 0, 0x30, b"Hi\0"), rig.cc(32, 1)])
            mkmsg(b)
            rec.n("foreign")
        elif r < 0.7:
            k = rng.choice(keys)
            mkmsg(spec.params[k]["answer"](rng.choice([0, 1, 2, 300])))
            rec.n("unsolicited")
        dt = rng.choice([0, 1, 5, 20, 100, 201, 201, 400, 1001, life // 2 + 1, life, life + 1, life + life // 2 + 2])
        # stop at each moment an answer is due
        target = W.clock.ms + dt
        while True:
            due = sorted({x[0] for x in todo if W.clock.ms < x[0] < target})
            nxt = due[0] if due else target
            W.clock.ms = max(W.clock.ms, nxt)
            now = [x for x in todo if x[0] <= W.clock.ms]
            todo = [x for x in todo if x[0] > W.clock.ms]
            rng.shuffle(now)
            for x in now:
                mkmsg(x[1])
                hist_answers.append(x)
            if R.c.tick() is not True:
                raise Violation("tick() ended the processing loop")
            parse_log()
            mon.tick_end(W.clock.ms, {k: maps[k].value for k in keys})
            if nxt >= target:
                break
    rec.n("nfa_states", mon.maxstates)
    if sent_once:
        rec.sig(sigs)


def _to_msg(W, b):
    if b[0] == 0xF0:
        return W.get("adafruit_midi.system_exclusive:SystemExclusive")(list(b[1:4]), list(b[4:-1]))
    if b[0] & 0xF0 == 0xC0:
        return W.get("adafruit_midi.program_change:ProgramChange")(b[1])
    return W.get("adafruit_midi.control_change:ControlChange")(b[1], b[2])


def run_case(rng, rec, tier):
    drive(rng, rec, tier, False)
