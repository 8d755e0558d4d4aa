"""Paging: a model of the pagers predicts reacting actions, LEDs and labels after every event."""
from vlib import env, rig
from vlib.runner import Violation, check, eq
from props.C03 import partition, close

ID = "C04"
RULE = ("A case is a controller with 1-2 pagers (rotating or direct, with select-page buttons, pagers on pages of other pagers, pagers as hold actions), "
        "paged and unpaged parameter buttons sharing switches, LEDs and labels, and a random history of pushes, device reports and time; "
        "non-trivial when a page changed and a paged action reacted afterwards; signature = pager setup plus sequence of (event, page).")
CASES = {"quick": 3000, "thorough": 40000}
FLOORS = {"page_changes": 1500, "reactions": 500, "hidden_reports": 500, "display_checks": 5000, "direct_selects": 200, "nested_pager_draws": 20}
LEVEL_NOTE = ("Exploration: a reference model of pages, enabled actions, LED division and labels is compared with the real controller (MIDI bytes, LED "
              "array, label text/colour) after every event of seeded random histories. The simulated device echoes every command, and pages change only "
              "while other switches are up.")


def run_case(rng, rec, tier):
    W = env.World()
    A = W.imp("pyswitch.controller.actions")
    PBA = A.PushButtonAction
    Pager = W.get("pyswitch.clients.local.actions.pager:PagerAction")
    BPC = W.get("pyswitch.controller.callbacks:BinaryParameterCallback")
    Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
    CC = W.get("adafruit_midi.control_change:ControlChange")
    Analog = W.get("pyswitch.controller.actions.AnalogAction:AnalogAction")

    def col():
        return rng.choice([(255, 0, 0), (0, 255, 0), (10, 20, 200), (255, 255, 255), (7, 7, 7), (rng.randint(0, 255), rng.randint(0, 255), rng.randint(0, 255))])

    labels = [rig.label(W, back=(1, 2, 3), y=40 * i) for i in range(4)]
    DIM = {"displayDimFactorOn": 1, "displayDimFactorOff": rng.choice([0.2, 0.5])}
    switches = []      # {"m", "pix", "acts": [...], "hold": [...]}
    pagers = []
    used_ids = rng.sample([0, 1, 2, 3, 4, 5, "A", "B", "x", "page 1", 10, 11], 12)
    npag = rng.choice([1, 1, 2])

    for p in range(npag):
        n = rng.choice([1, 2, 2, 3, 4, 5])
        pages = []
        for i in range(n):
            d = {"id": used_ids.pop() if rng.random() < 0.9 or not pages else pages[0]["id"]}
            if any(x["id"] == d["id"] for x in pages):
                d = {"id": used_ids.pop()}
            if rng.random() < 0.8:
                d["color"] = col()
            if rng.random() < 0.8:
                d["text"] = "P%d.%d" % (p, i)
            pages.append(d)
            if not used_ids:
                break
        direct = rng.random() < 0.4
        P = {"pages": pages, "cur": 0, "kind": "pager", "parent": None, "page": None, "proxies": [], "uses": rng.random() < 0.85,
             "b": round(rng.uniform(0.05, 1), 2), "bon": round(rng.uniform(0.3, 1), 2), "boff": round(rng.uniform(0, 0.2), 2),
             "label": labels[p] if rng.random() < 0.7 else None}
        P["sel"] = rng.randrange(len(pages)) if direct else None
        kw = {}
        if p > 0 and rng.random() < 0.5:
            par = pagers[0]
            P["parent"], P["page"] = par, rng.choice(par["pages"])["id"]
            kw = {"id": P["page"], "enable_callback": par["obj"].enable_callback}
        if rng.random() < 0.3:
            kw["mappings"] = [Mapping.get(name="dep%d" % p, response=CC(111 + p, 0), request=CC(113 + p, 1) if rng.random() < 0.5 else None)]
        P["obj"] = Pager(pages=pages, select_page=pages[P["sel"]]["id"] if direct else None, led_brightness=P["b"], led_brightness_on=P["bon"],
                         led_brightness_off=P["boff"], use_leds=P["uses"], display=P["label"], **kw)
        P["act"] = P["obj"]
        pagers.append(P)

    nsw = rng.randint(3, 6)
    pool = list(range(nsw * 4))
    rng.shuffle(pool)
    for s in range(nsw):
        switches.append({"m": rig.SwModel(), "pix": tuple(pool.pop() for _ in range(rng.choice([0, 1, 3, 3]))), "acts": [], "hold": [], "t": None})
    # pagers get their own switches (or the hold slot of a switch)
    cc = 0
    paged = []

    def enabled(a):
        return a["parent"] is None or a["parent"]["pages"][a["parent"]["cur"]]["id"] == a["page"]

    def mk(page_of=None):
        nonlocal cc
        c = cc
        cc += 1
        par = page_of if page_of is not None else (rng.choice(pagers) if rng.random() < 0.8 else None)
        page = None
        kw = {}
        if par:
            page = rng.choice(par["pages"])["id"]
            kw = {"id": page, "enableCallback": par["obj"].enable_callback}
        a = {"kind": "bin", "cc": c, "parent": par, "page": page, "val": None, "state": False, "color": col(), "text": "act%d" % c,
             "uses": rng.random() < 0.85, "bon": round(rng.uniform(0.3, 1), 2), "boff": round(rng.uniform(0, 0.2), 2),
             "label": rng.choice(labels[2:]) if par and rng.random() < 0.7 else None,
             "mode": rng.choice(["LATCH", "MOMENTARY", "ENABLE"])}
        if a["label"] is not None:
            for o in paged:       # one action per label and page
                if o["label"] is a["label"] and (o["page"] == page or o["parent"] is not par):
                    a["label"] = None
                    break
        kw.update({"callback": BPC(mapping=Mapping.get(name="m%d" % c, set=CC(c, 0), response=CC(c, 0)), value_enable=100, color=a["color"],
                                   text=a["text"], led_brightness_on=a["bon"], led_brightness_off=a["boff"]),
                   "mode": getattr(PBA, a["mode"]), "useSwitchLeds": a["uses"], "display": a["label"]})
        a["act"] = PBA(kw)
        paged.append(a)
        return a

    order = list(range(nsw))
    rng.shuffle(order)
    for p in pagers:
        s = switches[order.pop()]
        if rng.random() < 0.3:
            s["hold"].append(p)
            s["acts"] = [mk() for _ in range(rng.randint(1, 3))]
            p["hold"] = True
        else:
            s["acts"].append(p)
    for p in pagers:
        for _ in range(rng.choice([0, 0, 1, 2])):
            if not order:
                break
            i = rng.randrange(len(p["pages"]))
            q = {"kind": "proxy", "pager": p, "idx": i, "parent": None, "page": None, "uses": rng.random() < 0.8, "label": None}
            q["obj"] = q["act"] = p["obj"].proxy(p["pages"][i]["id"], use_leds=q["uses"])
            p["proxies"].append(q)
            switches[order.pop()]["acts"].append(q)
    big = rng.random() < 0.06        # many actions, like on large boards with pages
    for i in order:
        switches[i]["acts"] = [mk() for _ in range(rng.randint(8, 14) if big else rng.randint(1, 5))]
    if big:
        rec.n("large_configurations")
    inputs = []
    for s in switches:
        d = {"assignment": {"model": s["m"], "pixels": s["pix"]}, "actions": [a["act"] for a in s["acts"]]}
        if s["hold"]:
            d["actionsHold"] = [a["act"] for a in s["hold"]]
            d["holdTimeMillis"] = 500
        inputs.append(d)
    pot = rig.PotModel(30000)
    if rng.random() < 0.4:
        inputs.append({"assignment": {"model": pot}, "actions": [Analog(mapping=Mapping.get(name="ped", set=CC(110, 0)), id=pagers[0]["pages"][0]["id"],
                                                                        enable_callback=pagers[0]["obj"].enable_callback)]})
        haspot = True
    else:
        haspot = False
    cfg = dict(DIM)
    cfg["updateInterval"] = 100
    R = rig.Rig(W, inputs=inputs, labels=labels, config=cfg)
    R.tick(150)
    R.tick(150)
    potlast = None
    for m in R.sent_msgs():
        if m[1] in (113, 114):
            continue
        check(haspot and m[:2] == b"\xb0\x6e", lambda: "message %s sent without input" % m.hex())
        potlast = m
    sig = []

    def leds_of(s):
        u = [a for a in s["acts"] + s["hold"] if a["uses"] and enabled(a)]
        return list(zip(u, partition(len(u), len(s["pix"]))))

    def look(a):
        if a["kind"] == "bin":
            return a["color"], (a["bon"] if a["state"] else a["boff"])
        if a["kind"] == "proxy":
            p, i = a["pager"], a["idx"]
            return p["pages"][i].get("color", (255, 255, 255)), (p["bon"] if p["cur"] == i else p["boff"])
        if a["sel"] is not None:
            return a["pages"][a["sel"]].get("color", (255, 255, 255)), (a["bon"] if a["cur"] == a["sel"] else a["boff"])
        return a["pages"][a["cur"]].get("color", (255, 255, 255)), a["b"]

    def verify(what):
        leds = R.leds
        rec.n("display_checks")
        for p in pagers:
            eq(p["obj"].current_page_id, p["pages"][p["cur"]]["id"], "current page after " + what)
            if p["label"] is not None and enabled(p):
                pg = p["pages"][p["cur"]]
                eq((p["label"].text, p["label"].back_color), (pg.get("text", ""), pg.get("color", (255, 255, 255))), "pager label after " + what)
            if p["parent"] is not None and enabled(p):
                rec.n("nested_pager_draws")
        for i, s in enumerate(switches):
            for a, segs in leds_of(s):
                c, b = look(a)
                want = tuple(int(x * b) for x in c)
                for g in segs:
                    if not close(leds[s["pix"][g]], want):
                        raise Violation("after %s: LED %d of switch %d shows %r, its action (%s, page %r, %s) shows %r; pages %r" % (
                            what, g, i, leds[s["pix"][g]], a.get("text", a["kind"]), a["page"], a.get("state"), want,
                            [p["pages"][p["cur"]]["id"] for p in pagers]))
        for a in paged:
            if a["label"] is not None and enabled(a):
                f = 1 if a["state"] else DIM["displayDimFactorOff"]
                want = (a["text"], tuple(int(x * f) for x in a["color"]))
                got = (a["label"].text, a["label"].back_color)
                if got != want:
                    raise Violation("after %s: label shows %r, the action of the current page shows %r" % (what, got, want))

    def reset_all():
        for a in paged:
            a["state"] = a["val"] is not None and a["val"] >= 100

    def press(a, want):
        """trigger action a: appends messages, returns True when a page was selected"""
        if a["kind"] == "bin":
            old = a["state"]
            new = (not old) if a["mode"] == "LATCH" else True
            if new != old:
                want.append(rig.cc(a["cc"], 1 if False else (100 if new else 0)))
                a["val"] = 100 if new else 0
                a["state"] = new
                rec.n("reactions")
            return False
        p = a["pager"] if a["kind"] == "proxy" else a
        if a["kind"] == "proxy":
            p["cur"] = a["idx"]
            rec.n("direct_selects")
        elif p["sel"] is not None:
            p["cur"] = p["sel"]
            rec.n("direct_selects")
        else:
            p["cur"] = (p["cur"] + 1) % len(p["pages"])
        rec.n("page_changes")
        sig.append((pagers.index(p), p["cur"]))
        reset_all()
        return True

    def release(a, want):
        if a["kind"] == "bin" and a["mode"] == "MOMENTARY" and a["state"]:
            want.append(rig.cc(a["cc"], 0))
            a["val"], a["state"] = 0, False

    def compare(want, what):
        nonlocal potlast
        got = []
        for m in R.sent_msgs():
            if m[:2] == b"\xb0\x6e":
                check(haspot and enabled({"parent": pagers[0], "page": pagers[0]["pages"][0]["id"]}), "pedal of a hidden page sent a message")
                potlast = m
            elif m[1] in (113, 114):
                rec.n("pager_requests")
            else:
                got.append(m)
        if got != want:
            raise Violation("%s: messages %r, expected %r" % (what, [g.hex() for g in got], [w.hex() for w in want]))
        # the device reports what it was told
        for m in want:
            R.feed(m)

    verify("start")
    for step in range(rng.randint(6, 35)):
        r = rng.random()
        if r < 0.6:
            i = rng.randrange(nsw)
            s = switches[i]
            want = []
            vis = [a for a in s["acts"] if enabled(a)]
            if s["hold"]:
                long = rng.random() < 0.6
                s["m"].down = True
                R.tick(5)
                R.tick(rng.choice([60, 200]))
                if long:
                    R.tick(600)
                    for a in s["hold"]:
                        if enabled(a):
                            press(a, want)
                s["m"].down = False
                R.tick(5)
                if not long:
                    for a in vis:
                        press(a, want)
                        release(a, want)
                what = "%s press of switch %d" % ("long" if long else "short", i)
                compare(want, what)
            else:
                s["m"].down = True
                R.tick(5)
                for a in vis:
                    press(a, want)
                what = "push of switch %d" % i
                compare(want, what)
                R.tick(rng.choice([10, 150]))
                want = []
                s["m"].down = False
                R.tick(5)
                for a in [a for a in s["acts"] if enabled(a)]:
                    release(a, want)
                compare(want, "release of switch %d" % i)
            rec.ev(what, [p["cur"] for p in pagers])
        elif r < 0.9 and paged:
            a = rng.choice(paged)
            v = rng.choice([0, 99, 100, 127])
            if v == a["val"]:
                v ^= 1
            before = (R.leds, [(l.text, l.back_color) for l in labels])
            R.feed(rig.cc(a["cc"], v))
            R.tick(5)
            a["val"] = v
            a["state"] = v >= 100
            what = "report %d for %s (page %r)" % (v, a["text"], a["page"])
            rec.ev(what)
            compare([], what)
            if not enabled(a):
                rec.n("hidden_reports")
                eq((R.leds, [(l.text, l.back_color) for l in labels]), before, "displays after a report for a hidden action")
        else:
            pot.v = rng.randint(0, 65535)
            R.feed(rig.cc(rng.choice([111, 112]), rng.randint(0, 127)))
            what = "time"
        R.settle()
        R.tick(150)
        R.tick(150)
        compare([], "after " + what)
        verify(what)
    if any(isinstance(x, tuple) for x in sig):
        rec.sig((tuple((len(p["pages"]), p["sel"], len(p["proxies"])) for p in pagers), tuple(sig)))
