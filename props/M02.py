"""MIDI floods: an ordering monitor over input polls, port reads, processed messages and updates of every tick."""
from collections import deque
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "M02"
RULE = ("A case is a controller with 0-5 inputs of all kinds, 0-6 updateables, random update interval, message limit and start-up options, driven by random arrival "
        "patterns (silence, bursts, endless floods, arrivals during the tick, start-up backlog) on 1-2 ports; non-trivial when messages were processed; "
        "signature = configuration with the per-tick message counts.")
CASES = {"quick": 4000, "thorough": 60000}
FLOORS = {"messages": 30000, "polls": 50000, "ticks": 10000, "limited": 1000, "updates": 3000, "discarded": 500, "kept_backlog": 500, "flood_ticks": 1500,
          "press_in_flood": 300}
LEVEL_NOTE = ("Exploration: a trace monitor checks every poll, read, processed message and update of the real controller in seeded schedules. The bound of a tick is "
              "(messages limit + 1) per receive round and one round per updateable plus one.")


class Flooded(Violation):
    pass


class Port:
    def __init__(self, log, name):
        self.log, self.name, self.q, self.endless, self.limit = log, name, deque(), None, 20000

    def receive(self):
        m = self.q.popleft() if self.q else (self.endless() if self.endless else None)
        if m is not None and len(self.log) > self.limit:
            raise Flooded("a tick does not end while messages keep arriving (%d steps)" % len(self.log))
        self.log.append(("read", self.name, m))
        return m

    def send(self, m):
        self.log.append(("send", m))


class Pot:
    def __init__(self, log, name, attr):
        self.log, self.name, self.v = log, name, 0

    def init(self):
        pass


class PotV(Pot):
    @property
    def value(self):
        self.log.append(("poll", self.name))
        return self.v


class EncV(Pot):
    @property
    def position(self):
        self.log.append(("poll", self.name))
        return self.v


class Nop:
    """Action without effect for inputs"""
    def __init__(self, log=None, name=None):
        self.log, self.name = log, name
        self.enabled = True

    def init(self, *a):
        pass

    def update(self):
        pass

    def update_displays(self):
        pass

    def reset(self):
        pass

    def process(self, v):
        pass

    def push(self):
        self.log.append(("push", self.name))

    def release(self):
        self.log.append(("release", self.name))


def run_case(rng, rec, tier):
    W = env.World(start_ms=rng.choice([0, 100000]))
    midi = W.imp("pyswitch.controller.midi")
    CC = W.get("adafruit_midi.control_change:ControlChange")
    Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
    Updateable = W.get("pyswitch.misc:Updateable")
    Action = W.get("pyswitch.controller.actions:PushButtonAction")
    Callback = W.get("pyswitch.controller.callbacks:Callback")
    log = []
    inputs, switches = [], []

    class Cb(Callback):
        def __init__(self, name):
            Callback.__init__(self)
            self.name = name

        def state_changed_by_user(self):
            log.append(("user", self.name))

        def update_displays(self):
            pass
    for i in range(rng.choice([0, 1, 2, 3, 5])):
        kind = rng.choice(["switch", "switch", "pot", "enc"])
        name = "%s%d" % (kind, i)
        if kind == "switch":
            m = rig.SwModel(log, name)
            switches.append((m, name))
            inputs.append({"assignment": {"model": m}, "actions": [Action({"callback": Cb(name), "mode": Action.MOMENTARY})]})
        else:
            m = (PotV if kind == "pot" else EncV)(log, name, None)
            inputs.append({"assignment": {"model": m}, "actions": [Nop()]})
    names = [i["assignment"]["model"].name for i in inputs]
    nports = rng.choice([1, 1, 2])
    ports = [Port(log, "p%d" % i) for i in range(nports)]
    app = midi.MidiRouting.APPLICATION
    routings = [midi.MidiRouting(source=p, target=app) for p in ports] + [midi.MidiRouting(source=app, target=ports[0])]
    cfg = {}
    limit, interval, clear = 10, 200, True
    if rng.random() < 0.7:
        limit = cfg["maxConsecutiveMidiMessages"] = rng.choice([1, 2, 5, 10, 30])
    if rng.random() < 0.7:
        interval = cfg["updateInterval"] = rng.choice([1, 20, 200, 1000])
    if rng.random() < 0.7:
        clear = cfg["clearBuffers"] = rng.random() < 0.5
    k = [0]

    def mk():
        k[0] += 1
        return CC(20 + k[0] % 3, (k[0] // 3) % 128)
    if rng.random() < 0.15:
        cfg["debugStats"] = True
        cfg["debugStatsInterval"] = rng.choice([10, 1000])
    R = rig.Rig(W, inputs=inputs, ui=False, init=False, routings=routings, config=cfg)
    switched = {n: m for m, n in switches}

    class L:
        def parameter_changed(self, mapping):
            log.append(("proc", int(mapping.name), mapping.value))

        def request_terminated(self, mapping):
            log.append(("term",))
    maps = [Mapping.get(name=str(20 + i), response=CC(20 + i, 0)) for i in range(3)]
    for m in maps:
        R.c.client.register(m, L())

    class U(Updateable):
        def __init__(self, i):
            self.i = i

        def update(self):
            log.append(("upd", self.i))
    nown = rng.choice([0, 1, 3, 6])
    for i in range(nown):
        R.c.add_updateable(U(i))
    nupd = len(R.c.updateables)
    # ---- startup
    backlog = []
    for i in range(rng.choice([0, 0, 1, 5, 40])):
        p = rng.choice(ports)
        m = mk()
        p.q.append(m)
        backlog.append((p, m))
    del log[:]
    R.c.init()
    pushes = [x for x in log if x[0] == "push" or x[0] == "user"]
    check(not [x for x in log if x[0] == "proc"], "messages processed before the first tick")
    if clear:
        check(not any(p.q for p in ports), "buffered messages not discarded at start-up")
        rec.n("discarded", len(backlog))
        order = {p.name: [] for p in ports}
    else:
        check(not [x for x in log if x[0] == "read"], "ports read at start-up although buffers shall not be cleared")
        order = {p.name: [m for q, m in backlog if q is p] for p in ports}
        rec.n("kept_backlog", len(backlog))
    del log[:]
    pending = []           # read but not yet processed
    last_update = 0
    counts = []
    expect_user = []
    lastpoll = {n: False for n in names}

    def arrive(n):
        for _ in range(n):
            p = rng.choice(ports)
            m = mk()
            p.q.append(m)
            order[p.name].append(m)

    for step in range(rng.choice([3, 10, 30])):
        r = rng.random()
        flood = False
        burst = 0
        if r < 0.3:
            burst = rng.choice([1, 2, limit, limit + 1, limit + 2, 3 * limit])
            arrive(burst)
        elif r < 0.5:
            flood = True
            fp = rng.choice(ports)

            def endless(fp=fp):
                m = mk()
                order[fp.name].append(m)
                # buttons may be pressed while the flood goes on
                if switches and rng.random() < 0.03:
                    sm, sn = rng.choice(switches)
                    sm.down = not sm.down
                    expect_user.append(sn)
                    rec.n("press_in_flood")
                return m
            fp.endless = endless
            rec.n("flood_ticks")
        if switches and rng.random() < 0.2:
            m, n = rng.choice(switches)
            m.down = not m.down
        dt = rng.choice([0, 1, 5, interval - 1, interval, interval + 1, interval * 3])
        R.clock.advance(max(0, dt))
        now = W.clock.ms
        if R.c.tick() is not True:
            raise Violation("tick() ended the processing loop")
        for p in ports:
            p.endless = None
        rec.n("ticks")
        # ------------------------------------------------------------ trace monitor
        what = "tick %d (%s)" % (step, cfg)
        polled = set()
        msgs = 0
        rounds = 1
        updated = []
        round_msgs = 0
        pos = {p: 0 for p in order}
        for e in log:
            if e[0] == "poll":
                polled.add(e[1])
                rec.n("polls")
            elif e[0] == "read":
                if e[2] is None and e[1] != ports[-1].name:
                    continue
                miss = [n for n in names if n not in polled]
                check(not miss, lambda: "%s: message taken from %s without polling %r before" % (what, e[1], miss))
                polled = set()
                if e[2] is not None:
                    msgs += 1
                    round_msgs += 1
                    check(order[e[1]] and order[e[1]][0] is e[2], lambda: "%s: read order of %s" % (what, e[1]))
                    order[e[1]].pop(0)
                    pending.append((e[2].control, e[2].value))
                    check(len(pending) == 1, lambda: "%s: another message read while %r is not processed" % (what, pending[0]))
            elif e[0] == "proc":
                check(pending and pending[0] == e[1:], lambda: "%s: processed %r, expected %r" % (what, e[1:], pending))
                pending.pop(0)
                rec.n("messages")
            elif e[0] == "upd":
                updated.append(e[1])
                rounds += 1
                round_msgs = 0
        check(not pending, lambda: "%s: message %r read but never processed" % (what, pending))
        due = now > last_update + interval
        if due:
            last_update = now
        eq(updated, list(range(nown)) if due else [], "%s: periodic updates at %d ms (interval %d)" % (what, now, interval))
        rec.n("updates", len(updated))
        bound = (limit + 1) * ((nupd + 1) if due else 1)
        check(msgs <= bound, lambda: "%s: %d messages in one tick, bound is %d (update %s)" % (what, msgs, bound, due))
        if msgs >= limit:
            rec.n("limited")
        if not any(p.q for p in ports):
            pass
        elif not flood:
            check(msgs >= limit, lambda: "%s: stopped after %d messages although more are waiting" % (what, msgs))
        check(all(n in {x[1] for x in log if x[0] == "poll"} for n in names), what + ": an input was not polled")
        # user events: every switch state seen at a poll is acted upon
        counts.append(msgs)
        rec.ev(now, what, "messages", msgs, "updates", updated)
        del log[:]
    # drain: nothing gets lost
    for _ in range(2000):
        if not any(p.q for p in ports):
            break
        R.tick(1)
    for e in log:
        if e[0] == "read" and e[2] is not None:
            check(order[e[1]] and order[e[1]][0] is e[2], "read order")
            order[e[1]].pop(0)
            pending.append((e[2].control, e[2].value))
        elif e[0] == "proc":
            check(pending and pending[0] == e[1:], lambda: "processed %r, expected %r" % (e[1:], pending))
            pending.pop(0)
            rec.n("messages")
    check(not pending, "message never processed")
    check(not any(order.values()), "messages are left unprocessed")
    check(not [e for e in log if e[0] == "term"], "terminated requests")
    if sum(counts):
        rec.sig((sorted(cfg.items()), names, nown, counts))
