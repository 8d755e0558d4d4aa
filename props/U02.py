"""Splashes: the displayed group, its contents and the updates of its elements against the configured element trees."""
from vlib import env, rig, hw
from vlib.runner import check, eq

ID = "U02"
RULE = ("A case is a configuration with 2-5 splashes selected by one or two received parameters, each a random element tree (nested groups, split containers, labels static / with value callbacks / used by actions, updateable elements, "
        "empty entries), under a history of parameter reports switching back and forth (also several within one period), value changes while hidden, pushes and pauses. Signature = trees and history.")
CASES = {"quick": 2500, "thorough": 40000}
FLOORS = {"switches": 2500, "first_shows": 1700, "returns": 1500, "element_checks": 90000, "value_labels": 6000, "hidden_changes": 3500, "updates": 12000, "hidden_updateables": 8000, "rapid": 8000, "late_shown_values": 130}
LEVEL_NOTE = "Exploration: identity, order and number of all drawn elements, the displayed group, update counts of every updateable element and the texts of value labels, after every step."


class Obj:
    pass


def run_case(rng, rec, tier):
    W = env.World()
    r = rng
    ui, el = W.imp("pyswitch.ui.ui"), W.imp("pyswitch.ui.elements")
    Callback = W.get("pyswitch.controller.callbacks:Callback")
    PDC = W.get("pyswitch.controller.callbacks.parameter_display:ParameterDisplayCallback")
    SC = W.get("pyswitch.ui.DisplaySplitContainer:DisplaySplitContainer")
    Updateable = W.get("pyswitch.misc:Updateable")
    Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
    CC = W.get("adafruit_midi.control_change:ControlChange")
    SX = W.get("adafruit_midi.system_exclusive:SystemExclusive")
    MANU = b"\x00\x20\x33"
    B = ui.DisplayBounds

    class Upd(ui.DisplayElement, Updateable):
        def __init__(self, **kw):
            ui.DisplayElement.__init__(self, **kw)
            self.count = 0
            self.inits = 0

        def init(self, u, appl):
            ui.DisplayElement.init(self, u, appl)
            self.inits += 1
            u.splash.append(hw.Rect(x=1, y=1, width=3, height=3, fill=(1, 2, 3)))

        def update(self):
            self.count += 1

    params = []
    for k in range(r.randint(1, 3)):
        p = Obj()
        p.polled = r.random() < 0.5
        p.addr = (9, 10 + k)
        p.cc = 40 + k
        if p.polled:
            p.m = Mapping.get(name="P%d" % k, request=SX(manufacturer_id=MANU, data=bytes([0, 0, 0x41, 0, *p.addr])), response=SX(manufacturer_id=MANU, data=bytes([0, 0, 1, 0, *p.addr])))
        else:
            p.m = Mapping.get(name="P%d" % k, set=CC(p.cc, 0), response=CC(p.cc, 0))
        p.v = r.randrange(128)
        p.known = None
        p.reg = False     # somebody listens to it already
        params.append(p)
    sels = [Mapping.get(name="S%d" % k, response=CC(60 + k, 0)) for k in range(r.choice([1, 2]))]
    selv = [None] * len(sels)
    count = [0]
    vlabels, ups, alabels = [], [], []

    def lab(kind):
        o = Obj()
        o.kind = kind
        kw = {}
        lay = {"font": "/f", "text": "init"}
        o.bg = r.random() < 0.6 or kind == "action"
        if o.bg:
            lay["backColor"] = (r.randrange(256), r.randrange(256), 7)
        if kind == "value":
            o.p = r.choice(params)
            kw["callback"] = PDC(mapping=o.p.m, default_text="?")
        o.l = el.DisplayLabel(layout=lay, bounds=B(r.randrange(100), r.randrange(100), 50 + r.randrange(50), 30 + r.randrange(20)), **kw)
        o.l.o = o
        o.shown = False
        return o

    def tree(depth):
        """returns (element, list of expected drawn leaves: ('bg'|'text', label) | ('upd', element))"""
        k = r.random()
        if depth >= 1 and k < 0.25:
            o = lab("static")
        elif depth >= 1 and k < 0.5:
            o = lab("value")
            vlabels.append(o)
        elif depth >= 1 and k < 0.6:
            o = lab("action")
            alabels.append(o)
        elif depth >= 1 and k < 0.75:
            u = Upd(bounds=B(0, 0, 10, 10))
            u.own = None
            ups.append(u)
            return u, [("upd", u)]
        else:
            kids, exp = [], []
            for _ in range(r.randint(1, 4) if depth < 3 else 1):
                if r.random() < 0.1:
                    kids.append(None)
                    continue
                if depth >= 3:
                    o = lab("static")
                    e, x = o.l, ([("bg", o)] if o.bg else []) + [("text", o)]
                else:
                    e, x = tree(depth + 1)
                kids.append(e)
                exp += x
            if r.random() < 0.3:
                s = SC(bounds=B(0, 0, 240, 240), direction=r.choice([0, 1]))
                for c in kids:
                    s.add(c)
                return s, exp
            return ui.DisplayElement(bounds=B(0, 0, 240, 240), children=kids), exp
        return o.l, ([("bg", o)] if o.bg else []) + [("text", o)]

    roots = []
    for i in range(r.randint(2, 5)):
        o = Obj()
        o.i = i
        n0 = (len(vlabels), len(ups), len(alabels))
        e, o.exp = tree(0)
        extra = lab("static")       # never empty
        if isinstance(e, SC) or e.children is None:
            e2 = ui.DisplayElement(bounds=B(0, 0, 240, 240), children=[e, extra.l])
            o.el = e2
        else:
            e.children.append(extra.l)
            o.el = e
        o.exp = o.exp + ([("bg", extra)] if extra.bg else []) + [("text", extra)]
        o.v, o.u, o.a = vlabels[n0[0]:], ups[n0[1]:], alabels[n0[2]:]
        o.leaves = None
        roots.append(o)

    def select():
        s = sum((v or 0) * (1 + 2 * i) for i, v in enumerate(selv))
        return roots[s % len(roots)]

    class Splashes(Callback):
        def __init__(self):
            Callback.__init__(self, mappings=sels)

        def get_root(self):
            s = sum((m.value or 0) * (1 + 2 * i) for i, m in enumerate(sels))
            return roots[s % len(roots)].el

    BS = W.get("pyswitch.clients.local.actions.binary_switch:BINARY_SWITCH")
    inputs = []
    for k, o in enumerate(alabels):
        o.m, o.on = rig.SwModel(), False
        o.mm = Mapping.get(name="A%d" % k, set=CC(80 + k % 40, 0))
        inputs.append({"assignment": {"model": o.m}, "actions": [BS(mapping=o.mm, mode=20, display=o.l, color=(200, 100, 50), text="act", use_internal_state=True)]})
    sp = Splashes()
    R = rig.Rig(W, inputs=inputs, splash=sp)

    class Tick(Updateable):
        n = 0

        def update(self):
            Tick.n += 1
    R.c.add_updateable(Tick())
    hist = []

    def serve():
        for _, b in R.port.out:
            for m in rig.parse_stream(b):
                for p in params:
                    if p.polled and m[0] == 0xF0 and tuple(m[8:10]) == p.addr:
                        R.feed(rig.sysex(MANU, bytes([0, 0, 1, 0, *p.addr, p.v // 128, p.v % 128])))
        R.port.out.clear()

    def run(ms):
        t = 0
        while t < ms:
            R.tick(20)
            serve()
            t += 20

    def verify(cur, why):
        check(R.display.root is cur.el.splash and cur.el.splash is not None, lambda: "%s: splash %s is displayed, expected %d" % (why, [q.i for q in roots if q.el.splash is R.display.root], cur.i))
        els = [e for _, _, e in rig.find_screen(R.display.root)]
        first = cur.leaves is None
        if first:
            cur.leaves = els
            for o in cur.v:
                o.p.reg = True
            rec.n("first_shows")
            kinds = ["text" if isinstance(e, hw.Label) else "rect" for e in els]
            eq(kinds, ["text" if k == "text" else "rect" for k, _ in cur.exp], "%s: elements on splash %d" % (why, cur.i))
            for e, (k, o) in zip(els, cur.exp):
                rec.n("element_checks")
                if k == "text":
                    eq(e.text, o.l.text, "text element in place")
                elif k == "bg":
                    eq((e.width, e.height), (o.l.bounds.width, o.l.bounds.height), "background in place")
                else:
                    eq(e.fill, (1, 2, 3), "updateable element in place")
                    eq(o.inits, 1, "element initialized")
        else:
            rec.n("element_checks", len(els))
            check(len(els) == len(cur.leaves) and all(a is b for a, b in zip(els, cur.leaves)), lambda: "%s: elements of splash %d were re-created, dropped or duplicated" % (why, cur.i))
        for q in roots:
            for u in q.u:
                check(u.inits <= 1, "element initialized twice")
        groups = {}
        for ms, g in R.display.shown:
            groups.setdefault(id(g), 0)
        check(len(groups) <= len(roots), "more groups shown than splashes exist")

    def values(cur, why):
        for o in cur.v:
            p = o.p
            rec.n("value_labels")
            want = str(p.v) if p.polled else ("init" if p.known is None else str(p.known))
            got = o.l.text
            check(got == want or p.known is None and not p.polled and got in ("init", "?"), lambda: "%s: value label on splash %d shows %r, expected %r" % (why, cur.i, got, want))
        for o in cur.a:
            want = (200, 100, 50) if o.on else tuple(int(c * 0.2) for c in (200, 100, 50))
            check(all(abs(a - b) <= 1 for a, b in zip(o.l.back_color, want)), lambda: "%s: label of an action on splash %d shows %r, expected %r" % (why, cur.i, o.l.back_color, want))
        # what is drawn is what the labels have
        for e, (k, o) in zip(cur.leaves, cur.exp):
            if k == "text":
                eq(e.text, o.l.text, "text on screen")
            elif k == "bg":
                eq(tuple(e.fill), tuple(o.l.back_color), "background on screen")

    run(600)
    cur = roots[0]
    verify(cur, "at start")
    seen = {cur.i}
    for step in range(r.randint(5, 25)):
        k = r.random()
        if k < 0.5:
            for _ in range(r.choice([1, 1, 1, 2, 5])):
                j = r.randrange(len(sels))
                v = r.randrange(6)
                selv[j] = v
                hist.append(("select", j, v))
                R.feed(rig.cc(60 + j, v))
                for o in select().v:
                    o.p.reg = True
                rec.n("rapid")
            new = select()
            if new is not cur:
                rec.n("switches")
                rec.n("returns", int(new.i in seen))
                if new.i not in seen:
                    rec.n("late_shown_values", sum(not o.p.polled and o.p.known is not None for o in new.v))
                seen.add(new.i)
            cur = new
        elif k < 0.8:
            p = r.choice(params)
            p.v = r.randrange(128)
            hist.append(("value", params.index(p), p.v))
            if not p.polled:
                if p.reg:
                    p.known = p.v
                R.feed(rig.cc(p.cc, p.v))
            rec.n("hidden_changes", sum(o.p is p for q in roots if q is not cur for o in q.v))
        elif alabels:
            o = r.choice(alabels)
            o.m.down = True
            R.tick(10)
            o.m.down = False
            R.tick(10)
            o.on = not o.on
            hist.append(("push", alabels.index(o)))
        if r.random() < 0.75:
            R.settle()
            serve()
            verify(cur, "after %r" % (hist[-1:],))
        if r.random() < 0.7:
            R.settle()
            run(500)
            values(cur, "after %r" % (hist[-3:],)) if cur.leaves else verify(cur, "after %r" % (hist[-1:],))
            a = (Tick.n, {u: u.count for q in roots for u in q.u})
            run(r.choice([420, 1000]))
            d = Tick.n - a[0]
            check(d >= 1, "no update in 400 ms")
            for q in roots:
                for u in q.u:
                    got = u.count - a[1][u]
                    if q is cur:
                        rec.n("updates", d)
                        eq(got, d, "updates of a visible element in %d periods" % d)
                    else:
                        rec.n("hidden_updateables")
                        eq(got, 0, "updates of an element of a hidden splash")
            verify(cur, "after %r" % (hist[-1:],))
            rec.state((len(roots), cur.i, len(cur.exp)))
        rec.ev(W.clock.ms, hist[-1:])
    rec.sig((repr([[k for k, _ in q.exp] for q in roots]), repr(hist)))
