"""The rig name display shows the device's rig name and ID exactly."""
from vlib import env, rig, kdev
from vlib.runner import check, eq

ID = "K13"
RULE = ("Labels with every combination of rig name and ID and with parameter displays (amp, cabinet, comment, with converters and default texts) follow a simulated device through rig changes, renamings (empty, long and odd texts), "
        "lost answers, lost and restored connections, with and without the bidirectional protocol; after each change the text on the screen is compared to the device's content. Signature = labels and history; non-trivial when "
        "a rig has been shown.")
CASES = {"quick": 1600, "thorough": 24000}
FLOORS = {"texts": 14000, "rig_changes": 2000, "renamed": 1400, "losses": 450, "restored": 400, "ids": 6000, "empty": 200, "long": 500}
LEVEL_NOTE = "Exploration: label texts on the screen compared to the content of a simulated device after every change, loss and reconnection."


def run_case(rng, rec, tier):
    W = env.World()
    km = W.imp("pyswitch.clients.kemper")
    el, ui = W.imp("pyswitch.ui.elements"), W.imp("pyswitch.ui.ui")
    PD = W.get("pyswitch.controller.callbacks.parameter_display:ParameterDisplayCallback")
    KM = km.KemperMappings
    bidir = rng.random() < 0.5
    ival = rng.choice([50, 100, 200])
    wrap = rng.random() < 0.2
    labels = []

    def lab(cb):
        lay = {"font": "/fonts/H20.pcf", "text": rng.choice(["", "start"])}
        if rng.random() < 0.5:
            lay["backColor"] = (5, 6, 7)
        l = el.DisplayLabel(layout=lay, bounds=ui.DisplayBounds(0, 0, 240, 40), callback=cb)
        return l

    default = "PySwitch %s" % W.get("pyswitch.misc:PYSWITCH_VERSION")
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.7:
            name = rng.random() < 0.75
            rid = rng.choice([False, "rig", "bank", True]) if name else rng.choice(["rig", "bank", True, True])
            labels.append((lab(km.KemperRigNameCallback(show_name=name, show_rig_id=rid)), "rig", name, rid))
        else:
            what = rng.choice(["AMP_NAME", "CABINET_NAME", "RIG_NAME"])
            mapping = {"AMP_NAME": "pyswitch.clients.kemper.mappings.amp:MAPPING_AMP_NAME", "CABINET_NAME": "pyswitch.clients.kemper.mappings.cabinet:MAPPING_CABINET_NAME"}.get(what)
            mapping = W.get(mapping)() if mapping else KM.RIG_NAME()
            conv = rng.choice([None, None, lambda v: None if v is None or len(v) % 2 else "<%s>" % v, lambda v: "%r" % (v,)])
            d = rng.choice(["", "none"])
            kw = {"default_text": d} if d else {}
            labels.append((lab(PD(mapping=mapping, convert_value=conv, **kw)), "par", {"AMP_NAME": 0x10, "CABINET_NAME": 0x20, "RIG_NAME": 1}[what], (conv, d)))
    protocol = km.KemperBidirectionalProtocol(rng.choice([10, 30])) if bidir else None
    R = rig.Rig(W, inputs=[], labels=[l[0] for l in labels], config={"updateInterval": ival}, protocol=protocol)
    dev = kdev.Device(W, rng.random(), R.inport, R.port, rig=rng.randrange(625))
    if not bidir:
        dev.lease_until = dev.next_sense = 10 ** 12
    lat = rng.choice([None, 3, 40])
    dev.latency = (lambda: rng.randint(0, lat)) if lat else None
    known = [None]          # rig ID the controller knows

    def run(ms):
        t = 0
        while t < ms:
            W.clock.advance(10)
            t += 10
            dev.update()
            R.c.tick()

    short = 4 * ival + 200
    online = [False]

    def text_of(l):
        lb = [e for x, y, e in rig.find_screen(R.display.root) if hasattr(e, "text")]
        return lb[[x[0] for x in labels].index(l)].text

    def verify(why):
        for l, kind, p, q in labels:
            if kind == "rig":
                nm = (dev.str[1] or default) if online[0] else default
                if q and known[0] is not None:
                    b, g = divmod(known[0], 5)
                    i = str(g + 1) if q == "rig" else str(b + 1) if q == "bank" else "%d-%d" % (b + 1, g + 1)
                    want = "%s %s" % (i, nm) if p else i
                    rec.n("ids")
                else:
                    want = nm if p else ""
                    if not p and id(l) in fresh and l.text == fresh[id(l)]:
                        continue        # nothing received yet at all
            else:
                v = dev.str[p] if online[0] else None
                conv, d = q
                want = conv(v) if conv else None
                if want is None:
                    want = v if v is not None else d
            rec.n("texts")
            eq(l.text, want, "%s: label (%s, %r, %r), %s" % (why, kind, p, q if kind == "rig" else q[1], "bidirectional" if bidir else "requests only"))
            eq(text_of(l), want, "%s: text on the screen of label (%s, %r)" % (why, kind, p))

    fresh = {id(l[0]): l[0].text for l in labels}       # text before anything is known
    run(30)
    run(1500 if bidir else short)
    online[0] = True
    if bidir:
        known[0] = dev.rig
        fresh.clear()
    verify("after start")
    hist = []
    for step in range(rng.randint(4, 16)):
        k = rng.random()
        if not dev.link:
            if k < 0.6:
                dev.link = True
                rec.n("restored")
                run(7000 if bidir else 4500 + short)
                online[0] = True
                if bidir:
                    known[0] = dev.rig
                hist.append("link on")
            else:
                # changes nobody sees
                dev.load(rng.randrange(625))
                dev.str[1] = "Unseen"
                run(rng.choice([100, 3000]))
                hist.append("unseen change")
        elif k < 0.45:
            r = rng.choice([rng.randrange(625), rng.randrange(625), 0, 4, 5, 624, dev.rig])
            dev.load(r)
            rec.n("rig_changes")
            run(short)
            known[0] = r
            fresh.clear()
            hist.append(("rig", r))
        elif k < 0.78:
            n = rng.choice([0, 1, 2, 16, 31, 40, 60, 80])
            alpha = rng.choice(["abc XYZ-019", "".join(chr(c) for c in range(32, 127)), "\n\t ~a", "9- "])
            a = rng.choice([1, 1, 1, 0x10, 0x20])
            old = dev.str[a]
            dev.str[a] = "".join(rng.choice(alpha) for _ in range(n))
            rec.n("renamed")
            rec.n("empty", n == 0)
            rec.n("long", n >= 40)
            dev.store()
            if a == 1 and old != dev.str[1]:
                dev.report_str(1)
            run(short)
            hist.append(("name", a, n))
        elif k < 0.88:
            run(rng.choice([100, 2500]))
            hist.append("wait")
        else:
            dev.link = False
            dev.pipe.clear()
            rec.n("losses")
            run(8500 if bidir else 4500 + short)
            online[0] = False
            if bidir:
                known[0] = None
            hist.append("link off")
        verify("after %r" % hist[-4:])
        rec.ev(W.clock.ms, hist[-1], dev.rig, dev.str[1])
    rec.sig((bidir, [(k, p, repr(q) if k == "rig" else q[1]) for _, k, p, q in labels], repr(hist)))
