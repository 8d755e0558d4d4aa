"""Parameter up/down: every step against a model of the last known value; fixed texts."""
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "L03"
RULE = ("A case is 1-3 parameters (requested, only received, or kept bidirectional; SysEx or CC; full or restricted range) on a simulated device with answer latency, 1-5 up/down actions on them (any offset, repeat rate, "
        "normal and hold position, preview labels with and without text callback, enable callbacks) and fixed texts, under short, fast and long pushes, device changes, silence, and enabling changes while held. Signature = configuration and history.")
CASES = {"quick": 3000, "thorough": 50000}
FLOORS = {"steps": 5000, "limits": 2500, "repeats": 1000, "fast_pushes": 3500, "device_changes": 800, "unknown_pushes": 700, "previews": 2500, "preview_ends": 600, "hold_steps": 200, "display_checks": 10000, "fixed": 3500, "disabled_held": 40}
LEVEL_NOTE = "Exploration: each message written is compared with the value computed from the last value sent or received; repeat timing within one update period; labels and LEDs compared when the device has answered."


class En:
    def __init__(self):
        self.on = True

    def init(self, appl):
        pass

    def enabled(self, action):
        return self.on


class It:
    pass


class Proto:
    """Keeps some parameters bidirectional (the device reports them by itself)"""
    state = 1

    def __init__(self):
        self.bidi = []

    def init(self, midi, client):
        pass

    def is_bidirectional(self, m):
        return m in self.bidi

    feedback_value = is_bidirectional

    def update(self):
        pass

    def receive(self, msg):
        return False


MANU = b"\x00\x20\x33"


def dim(c, f):
    return tuple(int(x * f) for x in c)


def near(a, b):
    return all(abs(x - y) <= 1 for x, y in zip(a, b))


def run_case(rng, rec, tier):
    W = env.World()
    r = rng
    Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
    SX = W.get("adafruit_midi.system_exclusive:SystemExclusive")
    CC = W.get("adafruit_midi.control_change:ControlChange")
    UPD = W.get("pyswitch.clients.local.actions.param_change:PARAMETER_UP_DOWN")
    FIX = W.get("pyswitch.clients.local.actions.fixed_text:DISPLAY_FIXED_TEXT")
    proto = Proto() if r.random() < 0.4 else None
    col = lambda: (r.randrange(256), r.randrange(256), r.randrange(256))
    params = []
    for k in range(r.randint(1, 3)):
        p = It()
        p.k = k
        p.kind = r.choice(["polled", "polled", "passive"] + (["bidi", "bidi"] if proto else []))
        p.sx = p.kind != "passive" or r.random() < 0.4
        p.addr = (4 + k, 10 + k)
        p.full = 16383 if p.sx else 127
        p.max = None if r.random() < 0.5 else r.choice([p.full, p.full // 2, 100, 1000 if p.sx else 30])
        p.limit = p.max or p.full
        p.name = r.choice(["Par%d" % k, "P %d" % k])
        if p.sx:
            kw = dict(set=SX(manufacturer_id=MANU, data=bytes([0, 0, 1, 0, *p.addr])), response=SX(manufacturer_id=MANU, data=bytes([0, 0, 1, 0, *p.addr])))
            if p.kind == "polled" or r.random() < 0.5 and p.kind == "bidi":
                kw["request"] = SX(manufacturer_id=MANU, data=bytes([0, 0, 0x41, 0, *p.addr]))
        else:
            kw = dict(set=CC(20 + k, 0), response=CC(20 + k, 0))
        p.m = Mapping.get(name=p.name, **kw)
        if p.kind == "bidi":
            proto.bidi.append(p.m)
        p.dev = r.choice([0, p.limit, p.full, r.randrange(p.full + 1), r.randrange(p.limit + 1)])
        p.known = None
        p.silent = r.random() < 0.15
        p.clean = False      # a report came after the last push
        params.append(p)
    inputs, labels, items = [], [], []
    fixed = []
    previews = [rig.label(W, text="Rig", back=(9, 9, 9)) for _ in range(r.choice([1, 1, 2]))]
    labels += previews
    led = 0
    for s in range(r.randint(1, 5)):
        it = It()
        it.p = r.choice(params)
        it.m = rig.SwModel()
        it.hold = r.random() < 0.2
        it.off = r.choice([1, -1, 2, -5, 10, -10]) if not it.p.sx else r.choice([1, -1, 512, -512, 100, -3000, 20000, -20000])
        it.rep = r.choice([0, None, 200, 200, 50, 333, 1000])
        it.label = rig.label(W, back=(1, 2, 3), text="init") if r.random() < 0.6 else None
        it.pv = r.choice(previews) if r.random() < 0.6 else None
        it.cb = (lambda v: "<%d>" % v) if r.random() < 0.3 else None
        it.en = En() if r.random() < 0.3 else None
        it.color, it.br, it.text = (100, 255, 100), 0.3, "{val}%"
        kw = {}
        if r.random() < 0.5:
            it.color = kw["color"] = col()
        if r.random() < 0.5:
            it.br = kw["led_brightness"] = r.choice([0.1, 1])
        if r.random() < 0.5:
            it.text = kw["text"] = r.choice(["Up", "V {val}", "{val}/{val}"])
        it.timeout = 1500
        if it.pv and r.random() < 0.5:
            it.timeout = kw["change_timeout_millis"] = r.choice([300, 3000])
        if it.rep != 200:
            kw["repeat_interval_millis"] = it.rep
        if it.p.max:
            kw["max_value"] = it.p.max
        it.a = UPD(mapping=it.p.m, offset=it.off, display=it.label, change_display=it.pv, preview_text_callback=it.cb, enable_callback=it.en, use_leds=not it.hold, **kw)
        n = r.choice([0, 1, 3])
        it.pix = list(range(led, led + n)) if not it.hold else []
        lists = {"actions": [it.a]}
        if it.hold:
            lists = {"actions": [], "actionsHold": [it.a], "holdTimeMillis": 600}
        if r.random() < 0.4:
            f = It()
            f.text, f.back, f.tc = r.choice(["", "Fix", "A b"]), r.choice([None, col(), col(), (0, 0, 0)]), r.choice([None, col(), (0, 0, 0)])
            f.label = rig.label(W, back=(5, 6, 7), text="init")
            f.en = None
            kf = {k: v for k, v in (("back_color", f.back), ("text_color", f.tc)) if v is not None}
            lists["actions"] = lists["actions"] + [FIX(text=f.text, display=f.label, **kf)]
            if r.random() < 0.1:
                lists["actions"].append(FIX(text="nowhere", **kf))
            labels.append(f.label)
            fixed.append(f)
        inputs.append({"assignment": {"model": it.m, "pixels": tuple(range(led, led + n))}, **lists})
        led += n
        if it.label:
            labels.append(it.label)
        it.holding = False
        items.append(it)
    R = rig.Rig(W, inputs=inputs, labels=labels, protocol=proto)
    queue = []          # (due ms, param, bytes)
    lat = r.choice([0, 0, 5, 60])
    sends = []          # (ms, param, value)
    hist = []

    def report(p):
        v = p.dev
        return rig.sysex(MANU, bytes([0, 0, 1, 0, *p.addr, v // 128, v % 128])) if p.sx else rig.cc(20 + p.k, v)

    def on_sent():
        for _, b in R.port.out:
            for m in rig.parse_stream(b):
                hit = False
                for p in params:
                    if p.sx and m[:4] == b"\xf0" + MANU and tuple(m[8:10]) == p.addr:
                        hit = True
                        if m[6] == 0x41:
                            check(p.kind == "polled", lambda: "parameter which reports by itself is requested: %s" % m.hex())
                            if not p.silent:
                                queue.append([W.clock.ms + lat, p, report(p), p.dev])
                        else:
                            v = m[10] * 128 + m[11]
                            eq((m[6], m[7], len(m)), (1, 0, 13), "set message")
                            sends.append((W.clock.ms, p, v))
                            p.dev = v
                    elif not p.sx and m[0] & 0xF0 == 0xB0 and m[1] == 20 + p.k:
                        hit = True
                        sends.append((W.clock.ms, p, m[2]))
                        p.dev = m[2]
                check(hit, lambda: "unexpected message %s" % m.hex())
        R.port.out.clear()

    pend = [None]       # (label, text, until)
    pv, fresh = {}, []

    def account(expect_push=None):
        """Checks the set messages of this tick. expect_push: item being pushed now (exactly one step expected)"""
        todo = [(m, p, v) for m, p, v in sends]
        sends.clear()
        if expect_push is not None:
            it = expect_push
            if it.p.known is None:
                rec.n("unknown_pushes")
                eq(todo, [], "parameter set although its value is unknown")
                return
            want = min(max(it.p.known + it.off, 0), it.p.limit)
            if want == it.p.known and not todo:
                return
            mine = [x for x in todo if x[1] is it.p]
            sends.extend(x for x in todo if x[1] is not it.p)      # of other actions held
            todo = mine
            check(len(todo) == 1 and todo[0][2] == want, lambda: "push with offset %d at %r: set %r, expected %r, %r" % (it.off, it.p.known, [v for _, _, v in todo], want, hist[-3:]))
            stepped(it, want)
            if not sends:
                eq([l.text for l in fresh], [pv[id(l)][1] for l in fresh], "preview after a step")
                fresh.clear()
            else:
                account()
        else:
            for m, p, v in todo:
                c = [it for it in items if it.p is p and it.holding]
                check(c, lambda: "parameter set to %d without a push, %r" % (v, hist[-3:]))
                ok = [it for it in c if v == min(max(it.p.known + it.off, 0), it.p.limit) and it.rep and not (it.en and not it.en.on)]
                check(ok, lambda: "repeated step sets %d from %r, offsets %r, %r" % (v, p.known, [i.off for i in c], hist[-3:]))
                # several actions held on the same parameter: take the one which is due
                ok.sort(key=lambda i: i.last + i.rep)
                it = ok[0]
                check(m - it.last >= it.rep, lambda: "step repeated after %d ms, interval %d" % (m - it.last, it.rep))
                rec.n("repeats")
                stepped(it, v)
        for lab in fresh:
            eq(lab.text, pv[id(lab)][1], "preview after a step")
        fresh.clear()
        for it in items:
            if it.holding and it.rep and not (it.en and not it.en.on) and it.p.known is not None and it.started:
                check(W.clock.ms - it.last <= it.rep + 260 or it.p.known == min(max(it.p.known + it.off, 0), it.p.limit),
                      lambda: "held for %d ms since the last step, interval %d, no step" % (W.clock.ms - it.last, it.rep))

    def stepped(it, v):
        rec.n("steps")
        rec.n("limits", int(v in (0, it.p.limit)))
        rec.state((it.p.kind, it.p.sx, it.off > 0, v in (0, it.p.limit)))
        it.p.known, it.p.clean = v, it.p.kind == "bidi"
        it.p.pushed = True
        it.last = W.clock.ms
        it.started = True
        if it.pv:
            rec.n("previews")
            pct = round(v * 100 / it.p.limit)
            want = it.cb(v) if it.cb else "%s: %d%%" % (it.p.name, pct)
            pv[id(it.pv)] = (it.pv, want, W.clock.ms + it.timeout)
            fresh.append(it.pv)

    def tick(dt, edge=None):
        W.clock.advance(dt)
        if edge is None:
            due = [q for q in queue if q[0] <= W.clock.ms]
            for q in due:
                queue.remove(q)
                R.feed(q[2])
                q[1].known, q[1].clean = q[3], True
        R.tick(0)
        on_sent()
        account(edge if edge and edge != "release" else None)
        while edge is None and R.inport.inbuf:
            R.tick(0)
            on_sent()
            account()
        for p in [p for p in params if p.known == "?"]:
            p.known = None

    def run(ms, dt=None):
        end = W.clock.ms + ms
        while W.clock.ms < end:
            tick(min(dt or r.choice([5, 20, 30]), end - W.clock.ms))

    def check_pv():
        for k, (lab, want, until) in list(pv.items()):
            if W.clock.ms < until:
                eq(lab.text, want, "preview label before its time is over")
            elif W.clock.ms > until + 260:
                rec.n("preview_ends")
                eq(lab.text, "Rig", "preview label after its time")
                del pv[k]

    def verify():
        for f in fixed:
            rec.n("fixed")
            eq((f.label.text, tuple(f.label.back_color)), (f.text, f.back or (5, 6, 7)), "fixed text label")
            if f.tc:
                eq(tuple(f.label.text_color), f.tc, "text color of the fixed text label")
        for it in items:
            if it.en and not it.en.on or not it.p.clean or queue or it.p.known is None:
                continue
            d = min(max(it.p.known / it.p.limit, 0), 1)
            d = 1 - d if it.off < 0 else d
            if it.label:
                rec.n("display_checks")
                eq(it.label.text, it.text.replace("{val}", str(round(it.p.known * 100 / it.p.limit))), "label of the up/down action at %r" % it.p.known)
                check(near(it.label.back_color, dim(it.color, d)), lambda: "label color %r, expected %r" % (it.label.back_color, dim(it.color, d)))
            for x in it.pix:
                rec.n("display_checks")
                want = dim(it.color, d * it.br)
                check(near(R.leds[x], want), lambda: "LED %d shows %r, expected %r at %r" % (x, R.leds[x], want, it.p.known))

    for p in params:
        if p.kind != "polled" and r.random() < 0.8:
            queue.append([W.clock.ms + 20, p, report(p), p.dev])
    if r.random() < 0.8:
        run(600)
        verify()

    def press(it):
        hist.append(("press", items.index(it), it.off, it.p.kind))
        act = not (it.en and not it.en.on)
        it.m.down = True
        it.started = False
        it.last = W.clock.ms
        if it.hold:
            tick(10, "release")
            return
        if act:
            tick(r.choice([1, 10]), it)
        else:
            tick(1, "release")
        it.holding = act and it.started

    def release(it):
        it.m.down = False
        it.holding = False
        tick(10, "release")
        hist.append(("release", items.index(it)))

    for step in range(r.randint(3, 14)):
        k = r.random()
        it = r.choice(items)
        if k < 0.25:
            n = r.randint(2, 6)
            for _ in range(n):
                rec.n("fast_pushes")
                if it.hold:
                    break
                press(it)
                run(r.choice([10, 30]))
                release(it)
                run(r.choice([10, 30]))
        elif k < 0.55:
            press(it)
            if it.hold:
                # fires once after the hold time
                run(520)
                before = it.p.known
                act = not (it.en and not it.en.on)
                t0 = W.clock.ms
                done = False
                while W.clock.ms < t0 + 200 and not done:
                    W.clock.advance(20)
                    R.tick(0)
                    on_sent()
                    if sends:
                        done = True
                        rec.n("hold_steps")
                        account(it)
                want = None if before is None else min(max(before + it.off, 0), it.p.limit)
                check(done or not act or before is None or want == before, "held switch did not step the parameter")
                check(not done or act, "disabled action stepped the parameter")
                run(r.choice([0, 700]))
                release(it)
            else:
                run(r.choice([0, 100, 250, 700, 2500]))
                release(it)
        elif k < 0.62 and len(items) > 1:
            a, b = r.sample(items, 2)
            if a.p is not b.p and not a.hold and not b.hold:
                press(a)
                run(r.choice([10, 300]))
                press(b)
                run(r.choice([100, 900]))
                release(a)
                run(r.choice([10, 600]))
                release(b)
        elif k < 0.8:
            p = r.choice(params)
            p.dev = r.choice([0, p.limit, r.randrange(p.full + 1), r.randrange(p.limit + 1)])
            rec.n("device_changes")
            hist.append(("device", params.index(p), p.dev))
            if p.kind != "polled":
                queue.append([W.clock.ms + 10, p, report(p), p.dev])
        elif k < 0.9 and it.en:
            if it.en.on and not it.hold and r.random() < 0.6:
                press(it)
                run(r.choice([50, 300]))
                rec.n("disabled_held")
                hist.append(("disable while held", items.index(it)))
                it.en.on = False
                run(r.choice([220, 500]))
                release(it)
                run(r.choice([0, 1000]))
                it.en.on = True
            else:
                it.en.on = not it.en.on
                hist.append(("enable", it.en.on))
        else:
            for f in fixed:
                pass
            R.feed(rig.cc(99, 3) + rig.pc(3))
            hist.append("midi")
        run(r.choice([0, 30, 500, 500, 500]) if r.random() < 0.8 else 4000)
        check_pv()
        if hist and not any(p.silent for p in params):
            run(500)
            check_pv()
            verify()
        rec.ev(W.clock.ms, hist[-1:])
    rec.sig((repr([(p.kind, p.limit) for p in params]), repr([(i.off, i.rep, i.hold) for i in items]), repr(hist)))
