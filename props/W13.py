"""The emulator's connection to a client device: detection on MIDI ports, selection by the user, message transfer, replacement of connections."""
from vlib import webapp
from vlib import runner

ID = "W13"
RULE = ("A case is a random set of MIDI ports (inputs and outputs with and without counterpart; devices which answer the detection request after a random time, late or never; devices which send "
        "something else) and a random history of configurations loaded, client selections, waiting times (shorter and longer than the detection) and looks: at a look, messages are sent from all "
        "ports and by the emulator. Signature = ports and history.")
CASES = {"quick": 2500, "thorough": 40000}
FLOORS = {"looks": 1500, "detected": 250, "nothing detected": 200, "selected ports": 150, "virtual": 400, "superseded scans": 150, "messages": 5000}
LEVEL_NOTE = ("The real client controller, MIDI handler, detector, MIDI wrapper and virtual devices run in node over simulated Web MIDI ports and virtual time. The oracle computes from the answers actually "
              "delivered to which client the emulator must be connected when everything has settled, and checks which messages arrive where.")
ASSUMPTIONS = ["node's promise scheduling is the browser's", "no two MIDI ports share a name; ports do not come and go while the page is open"]
TEXT = {"kemper": "from pyswitch.clients.kemper.actions.rig_select import RIG_SELECT\n", "boomerang": "from pyswitch.clients.boomerang.actions.boomerang import BOOMERANG_COPY\n",
        "both": "from pyswitch.clients.boomerang.actions.boomerang import BOOMERANG_COPY\nfrom pyswitch.clients.kemper.actions.rig_select import RIG_SELECT\n", "none": "Inputs = []\n"}
TYPE = {"kemper": "kemper", "boomerang": "boomerang", "both": "kemper", "none": "kemper"}


def check(cond, msg, **info):
    runner.check(cond, lambda: msg + "".join(", %s=%r" % x for x in info.items())[:1100])


def eq(got, want, what, **info):
    runner.check(got == want, lambda: ("%s: got %r, expected %r" % (what, got, want))[:500] + "".join(", %s=%r" % x for x in info.items())[:1100])


def gen(r):
    ports = []
    for i in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        k = r.random()
        p = {"name": "Port %d" % i if r.random() < 0.7 else ["Profiler", "Profiler 2", "virtuoso", "CircuitPython usb_midi.ports[0]"][i % 4], "in": 1, "out": 1, "answer": None, "product": r.choice([0, 2])}
        if p["name"] == "virtuoso":
            p["name"] = "My virtual port"
        if k < 0.1:
            p["in"] = 0
        elif k < 0.2:
            p["out"] = 0
        elif k < 0.25:
            p["om"] = "other"
        elif k < 0.7:
            p["answer"] = r.choice([0, 1, 5, 20, 50, 100, 300, 700, 880, 1120, 1500, 2500]) + i * 2
        if r.random() < 0.4:
            p["noise"] = [[r.choice([0, 3, 40, 500, 990, 1200]), r.choice([[0x90, 3, 4], [0xf0, 0, 0x20, 0x33, 0, 0, 1, 0, 4, 2, 1, 1, 0xf7], [0xf0, 0, 0x20, 0x33, 0, 0, 0x41, 0, 4, 1, 0xf7],
                           [0xf0, 0, 0x20, 0x34, 0, 0, 1, 0, 4, 1, 1, 1, 0xf7], [0xfe], [0xf0, 0x7e, 0xf7]])] for _ in range(r.randrange(1, 4))]
        ports.append(p)
    configs = {k: {"text": TEXT[k], "delay": r.choice([0, 0, 0, 30, 200])} for k in TEXT}
    sels = ["auto", "auto", "Not connected", "virtual-kemper", "virtual-boomerang"] + [p["name"] for p in ports] * 2
    steps = []
    for _ in range(r.randrange(1, 5)):
        for k in range(r.choice([1, 1, 1, 2, 2, 3])):
            cfg = r.choice(["kemper", "kemper", "boomerang", "both", "none"])
            steps.append(["init", cfg] if r.random() < 0.5 else ["select", r.choice(sels), cfg])
            if r.random() < 0.7:
                steps.append(["wait", r.choice([1, 10, 60, 300, 600, 950])])
        steps.append(["wait", 5000])
        steps.append(["look"])
    return {"ports": ports, "configs": configs, "steps": steps}


def judge(c, log, rec):
    ports = c["ports"]
    pairs = [i for i, p in enumerate(ports) if p["in"] and p["out"] and p.get("om", "M") == p.get("im", "M")]
    selected = None
    steps = [s for s in c["steps"] if s[0] != "wait"]
    k = 0
    inits, answers, outs = [], [], []
    nvirtual = None
    for e in log:
        if e[0] == "init":
            st = steps[k]
            k += 1
            if st[0] == "select":
                selected = st[1]
            if inits and inits[-1][3] and e[1] - inits[-1][0] < 1300:
                rec.n("superseded scans")
            inits.append((e[1], selected, e[2], selected in (None, "auto")))
        elif e[0] in ("initfail", "handle"):
            check(False, "connecting failed", event=e, case=c)
        elif e[0] == "answer":
            answers.append((e[1], e[2]))
        elif e[0] == "out":
            outs.append((e[1], e[2], e[3]))
        elif e[0] == "look":
            k += 1
            t, r = e[1], e[2]
            rec.n("looks")
            t0, sel, cfg, auto = inits[-1]
            typ = TYPE[cfg]
            info = {"selected": sel, "config": cfg, "case": c}
            allowed = None
            if auto:
                if typ == "kemper":
                    # answers which could be heard by this scan
                    req = {i for a, i, d in outs if a >= t0 and d[:1] == [0xf0]}
                    overlap = len(inits) > 1 and t0 - inits[-2][0] < 4000
                    delay = c["configs"][cfg]["delay"]
                    for i in pairs:
                        check(i in req, "port %r was not asked during the detection" % ports[i]["name"], **info)
                    start = t0 + delay
                    good = sorted((a, i) for a, i in answers if i in pairs and start - 20 <= a <= start + 1020)
                    sure = [a for a, i in good if start + 20 <= a <= start + 980 or (not overlap and a <= start + 980)]
                    if good:
                        rec.n("detected")
                        first = good[0][0]
                        allowed = [("port", i) for a, i in good if overlap or a == first]
                        if not sure:
                            allowed.append(("virtual-kemper", None))
                    else:
                        rec.n("nothing detected")
                        allowed = [("virtual-kemper", None)]
                else:
                    allowed = [("virtual-boomerang", None)]
                    rec.n("nothing detected")
            elif sel.startswith("virtual-"):
                allowed = [(sel, None)]
            else:
                m = [i for i in pairs if ports[i]["name"] == sel]
                allowed = [("port", m[0])] if m else [(None, None)]
                rec.n("selected ports", bool(m))
            check(r["kind"] in [a[0] for a in allowed], "the emulator is connected to %r, expected %r" % (r["kind"], allowed), **info)
            cur = None
            if r["kind"] == "port":
                got = [x[0] for x in r["tx"]["out"]]
                check(len(set(got)) == 1 and ("port", got[0]) in allowed, "the emulator's messages go to ports %r, expected %r" % (got, allowed), **info)
                cur = got[0]
                eq([x[1] for x in r["tx"]["out"]], r["tx"]["sent"], "messages sent by the emulator as they arrive", **info)
                eq(r["current"], ports[cur]["name"], "name of the current client", **info)
                eq(r["shown"], None, "user interface of a virtual client", **info)
            else:
                check(not r["tx"] or not r["tx"]["out"], "messages for a virtual client are sent to a MIDI port", **info)
                eq(r["current"], None, "name of the current client", **info)
                eq(r["shown"], "it" if r["kind"] else None, "virtual client shown", **info)
            rec.n("virtual", bool(r["kind"]) and r["kind"] != "port")
            eq(r["intervals"], 1 if r["kind"] == "virtual-kemper" else 0, "running virtual devices", **info)
            for x in r["rx"]:
                rec.n("messages", len(x["sent"]))
                mine = cur is not None and x["port"] == ports[cur]["name"]
                eq(x["others"], 0, "replaced connections which still receive messages", port=x["port"], **info)
                eq(x["mine"], x["sent"] if mine else [], "messages from %r received by the emulator" % x["port"], **info)
                eq(x["heard"], len(x["sent"]) if mine else 0, "deliveries of messages from %r to listeners (connected: %s)" % (x["port"], mine), **info)
            rec.state((r["kind"], sel, cfg, len(pairs)))
            rec.ev(("look", r["kind"], cur))


def run_case(rng, rec, tier):
    c = gen(rng)
    rec.sig(c)
    judge(c, webapp.run("client", **c)["log"], rec)
