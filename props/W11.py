"""The MIDI monitor of the web application: every message exactly once, with what it is; ignored ones (and only those) left out."""
import json
from vlib import env, rig, webapp, emu
from vlib.runner import Violation, check, eq

ID = "W11"
RULE = ("A case is a random history: MIDI messages (Kemper parameters, requests, texts, protocol messages, other MIDI) read from and written to the emulator's MIDI ports in random portions, mixed with a user "
        "running and pausing the monitor, clearing it, ignoring lines, removing entries from the ignore list, switching the views, leaving the tab and reloading the page. Signature = the history.")
CASES = {"quick": 1500, "thorough": 15000}
FLOORS = {"messages": 150000, "messages shown": 60000, "messages ignored": 3500, "messages while paused": 60000, "lines ignored": 900, "ignored removed": 180, "reloads": 700, "names checked": 45000,
          "values checked": 45000, "lines dropped": 1800, "views compared": 25000}
LEVEL_NOTE = ("Exploration with an online model of the list. The monitor, the virtual device which names the messages, local storage handling and the emulator's MIDI ports are the real code; the DOM, jQuery "
              "(including event bubbling) and local storage itself are stand-ins.")
ASSUMPTIONS = ["clicking into the list stops the monitor", "names and values are constrained for the parameters the virtual device knows, for control and program changes"]
# parameters of the device reachable by control changes: shown under the name of the parameter
CC2ADDR = {11: (0, 11), 31: (127, 126), 17: (50, 3), 18: (51, 3), 19: (52, 3), 20: (53, 3), 22: (56, 3), 24: (58, 3), 26: (60, 3), 27: (60, 3), 28: (61, 3), 29: (61, 3)}
NUM = [(124, 0), (4, 0), (127, 126), (125, 84), (124, 15), (0, 11), (5, 1), (5, 6), (60, 0), (60, 3), (61, 0), (50, 0), (50, 3), (58, 3)]
TXT = [(0, 1), (0, 3), (0, 16)]


def message(r):
    """(bytes, expected part of the name, expected value, one of)"""
    k = r.random()
    v = r.choice([0, 1, 2, 64, 127, r.randrange(128)])
    if k < 0.25:
        c = r.choice(list(range(10, 90)))
        a = CC2ADDR.get(c)
        return [176, c, v], ("NRPN %d|%d" % a) if a else "CC %d" % c, [str(v), str(v * 128)] if c == 11 else [str(v)]
    if k < 0.32:
        ch = r.randrange(1, 16)
        return [176 + ch, v, 5], "CC %d (Channel %d)" % (v, ch + 1), ["5"]
    if k < 0.4:
        return [192, v], "PC", [str(v)]
    if k < 0.45:
        return [0x90 + r.randrange(3), r.randrange(60, 63), r.choice([0, 100])], None, None
    if k < 0.5:
        return [r.choice([0xF8, 0xFE])], None, None
    head = [240, 0, 32, 51]
    if k < 0.65:
        a = r.choice(NUM)
        hi, lo = r.randrange(128), r.choice([0, 1, 127, r.randrange(128)])
        out = r.random() < 0.5
        return head + ([2, 127] if out else [0, 0]) + [1, 0, *a, hi, lo, 247], "NRPN %d|%d" % a, [str(hi * 128 + lo)]
    if k < 0.75:
        a = r.choice(TXT)
        t = "".join(r.choice("abcXYZ 019-") for _ in range(r.randrange(0, 12)))
        return head + [0, 0, 3, 0, *a] + [ord(c) for c in t] + [0, 247], "NRPN %d|%d" % a, [t]
    if k < 0.85:
        a = r.choice(NUM + TXT)
        return head + [2, 127, 67 if a in TXT else 65, 0, *a, 247], "NRPN %d|%d" % a, [""]
    if k < 0.9:
        return head + [2, 127, 126, 0, 64, 2, r.choice([1, 0, 0x23]), 15, 247], "Init", [""]
    if k < 0.94:
        return head + [2, 127, 126, 0, 127, r.randrange(128), 247], "KeepAlive", [""]
    if k < 0.97:
        return [240, 126] + [r.randrange(128) for _ in range(r.randrange(4))] + [247], None, None
    return head + [0, 0, 1, 0, 77, r.randrange(128), v, 3, 247], None, None


def run_case(rng, rec, tier):
    r = rng
    W = emu.EmuWorld(1000)
    calls = []
    W.refs.__dict__["midiMonitor"] = emu.Obj(monitorInput=lambda m: calls.append(["msg", "in", list(bytes(m))]), monitorOutput=lambda m: calls.append(["msg", "out", list(bytes(m))]))
    inp = W.get("wrappers.wrap_adafruit_midi:WrapMidiInput")()
    out = W.get("wrappers.wrap_adafruit_midi:WrapMidiOutput")()
    ops, info, pool = [], {}, [message(r) for _ in range(r.randint(3, 12))]
    hist = []

    def new():
        b, n, v = r.choice(pool) if r.random() < 0.6 else message(r)
        info[tuple(b)] = (n, v)
        return b

    def traffic(n):
        for _ in range(n):
            if r.random() < 0.6:
                W.wrapper.messageQueue.append(bytes(new()))
            else:
                b = new()
                k = len(calls)
                out.write(bytearray(b), len(b))
                eq(calls[k:], [["msg", "out", b]], "what the monitor is told when %r is sent" % (b,))
            if r.random() < 0.4:
                take()

    def take():
        k = len(calls)
        got = inp.read(r.choice([1, 10, 30, 100])) or []
        ms = rig.parse_stream(bytes(got))
        eq(calls[k:], [["msg", "in", list(m)] for m in ms], "what the monitor is told when %r is received" % (list(got),))

    ran = False
    for _ in range(r.randint(15, 60) if tier == "quick" else r.randint(15, 120)):
        k = r.random()
        if k < 0.5:
            mark = len(calls)
            traffic(r.choice([1, 2, 4, 8, 20]) if r.random() < 0.93 else 130)
            ops += [c + [r.random() < 0.3, i == len(calls) - mark - 1] for i, c in enumerate(calls[mark:])]
        elif k < 0.64 or not ran:
            ops.append(["button", "pause"])
            ran = True
        elif k < 0.67:
            ops.append(["button", "clear"])
        elif k < 0.79:
            ops.append(["button", r.choice(["bytes", "values", "hex"])])
        elif k < 0.87:
            ops.append(["ignore", r.randrange(8)])
            if r.random() < 0.85:
                ops.append(["button", "pause"])
        elif k < 0.91:
            ops.append(["unignore", r.randrange(3)])
        elif k < 0.925:
            ops.append(["area"])
        elif k < 0.935:
            ops.append(["leave"])
        elif k < 0.965:
            ops.append(["comment", r.choice(["init", "Switch 1 pushed"])])
        else:
            ops.append(["reload"])
    for _ in range(200):
        if not W.wrapper.messageQueue:
            break
        mark = len(calls)
        take()
        ops += [c + [False, True] for c in calls[mark:]]
    names = probe(rec, info)
    res = webapp.run("monitor", local={}, ops=ops)
    check(not res["errors"], lambda: "the monitor reports errors: %r" % res["errors"][:2])
    judge(rec, ops, res["steps"], names)
    rec.sig([o[:3] for o in ops])


def fmt(b, hexa):
    return [("%02x" % x if hexa else str(x)) for x in b]


def probe(rec, info):
    """What each message is called: shown by a monitor which is just running"""
    all_ = sorted(info)
    names = {}
    for i in range(0, len(all_), 90):
        part = all_[i:i + 90]
        r = webapp.run("monitor", local={}, ops=[["button", "pause"]] + [["msg", "in", list(b), False, True] for b in part])
        check(not r["errors"], lambda: "the monitor reports errors: %r" % r["errors"][:2])
        msgs = [l for l in r["steps"][-1]["lines"] if len(l) > 1]
        eq(len(msgs), len(part), "number of lines for %d messages" % len(part))
        for b, l in zip(part, msgs):
            name, value = info[b]
            names[b] = l[1][0]
            if name is not None:
                rec.n("names checked")
                check(exact(name, l[1][0]), lambda: "the message %r is called %r, but it is about %s" % (list(b), l[1][0], name))
                check(("request" in l[1][0]) == (len(b) == 11 and b[6] in (65, 67)), lambda: "the message %r is called %r" % (list(b), l[1][0]))
                rec.n("values checked")
                check(l[2][0] in value, lambda: "the value shown for %r (%s) is %r, expected %r" % (list(b), l[1][0], l[2][0], value))
    return names


def exact(name, text):
    """The name is in the text and not only the start of a longer number there"""
    i = text.find(name)
    rest = text[i + len(name):]
    return i >= 0 and not (name[-1].isdigit() and rest[:1].isdigit())


def judge(rec, ops, steps, names):
    running, flags, hexa = False, {"bytes": False, "values": True}, False
    lines, ignored = [], []           # messages shown: (direction, bytes, hex at that time); ignored ones: (name, bytes)
    view = steps[0]["lines"]
    past = []
    for op, st in zip(ops, steps[1:]):
        past.append(op[:3] if op[0] == "msg" else op)
        ctx = lambda: "after %r (%d operations): " % (past[-5:], len(past))
        if op[0] == "msg":
            b = tuple(op[2])
            rec.n("messages")
            if not running:
                rec.n("messages while paused")
            elif any(e[0] == names[b] if e[0] else e[1] == b for e in ignored):
                rec.n("messages ignored")
            else:
                rec.n("messages shown")
                lines.append((op[1], b, hexa))
        elif op[0] == "button":
            check(st["hit"] == 1, lambda: ctx() + "%d buttons %r" % (st["hit"], op[1]))
            if op[1] == "pause":
                running = not running
            elif op[1] == "clear":
                lines = []
            elif op[1] == "hex":
                hexa = not hexa
            else:
                flags[op[1]] = not flags[op[1]]
        elif op[0] in ("area", "leave"):
            running = False
        elif op[0] == "reload":
            lines = []
            rec.n("reloads")
        elif op[0] == "ignore" and st["hit"]:
            check(len(view[op[1]]) > 1, lambda: ctx() + "a line without a message has a button")
            running = False         # as the click goes into the list, too
            b = lines[sum(1 for x in view[:op[1]] if len(x) > 1)][1]
            rec.n("lines ignored")
            if not any(e[1] == b for e in ignored) and (len(st["ignored"]) > len(ignored) or not any(e[0] and e[0] == names[b] for e in ignored)):
                ignored.append((names[b], b))
        elif op[0] == "unignore" and st["hit"]:
            ignored.pop(op[1])
            rec.n("ignored removed")
        if "lines" not in st:
            continue
        view = st["lines"]
        msgs = [l for l in view if len(l) > 1]
        check(len(view) <= 100, lambda: ctx() + "%d lines are shown" % len(view))
        if len(msgs) < len(lines) and len(view) == 100:
            lines = lines[len(lines) - len(msgs):]
            rec.n("lines dropped")
        check([(l[0][0], l[1][0]) for l in msgs] == [(d, names[b]) for d, b, h in lines], lambda: ctx() + "messages shown are (latest last) %r, expected %r" % ([(l[0][0], l[1][0]) for l in msgs][-4:] + [len(msgs)], [(d, names[b]) for d, b, h in lines][-4:] + [len(lines)]))
        for l, (d, b, h) in zip(msgs, lines):
            got = l[3][0].replace(" ", "").split(",")
            check(got == fmt(b, h) or h != hexa and got == fmt(b, hexa), lambda: ctx() + "the bytes shown for %r are %r (hex %s)" % (list(b), l[3][0], h))
            check(l[3][1] == flags["bytes"] and l[2][1] == flags["values"], lambda: ctx() + "bytes shown: %s, values shown: %s, expected %r" % (l[3][1], l[2][1], flags))
        rec.n("views compared")
        got = st["ignored"]
        check(len(got) == len(ignored) and all(g == name if name else g.replace(" ", "").split(",") in (fmt(b, True), fmt(b, False)) for g, (name, b) in zip(got, ignored)),
              lambda: ctx() + "the ignored messages are %r, expected %r" % (got, ignored))
