"""The web application's operation queue and routing: order, mutual exclusion, exactly once, progress, for any timing and with failing operations."""
import urllib.parse
from vlib import webapp
from vlib import runner

ID = "W07"
RULE = ("A case is either a random history of queued operations (several functions, synchronous and asynchronous, finishing in an order the driver decides, operations queueing further "
        "operations while they run, operations failing in different ways) or a random history of navigations through the application's own routing (real sammy.js) with slow and failing "
        "loads and page refreshes. Signature = the history.")
CASES = {"quick": 20000, "thorough": 300000}
FLOORS = {"operations": 4000, "overtaking chances": 1500, "failed operations": 500, "nested operations": 600, "navigations": 1000, "failed loads": 250}
LEVEL_NOTE = ("Exploration of schedules: the driver decides when each pending asynchronous step continues, so any order is reached without waiting. Offline checker over the recorded events: "
              "operations start in the order they were queued, never overlap, start exactly once with the context they were called with, and the queue is never idle while something waits "
              "(judged whenever no microtask is left).")
ASSUMPTIONS = ["node's promise scheduling is the browser's", "the DOM is replaced by a stand-in; sammy.js is the real library"]


def check(cond, msg, **info):
    runner.check(cond, lambda: msg + "".join(", %s=%r" % x for x in info.items())[:900])


def eq(got, want, what, **info):
    runner.check(got == want, lambda: ("%s: got %r, expected %r" % (what, got, want))[:600] + "".join(", %s=%r" % x for x in info.items())[:600])


def gen_queue(r):
    n = r.randrange(1, 5)
    beh = [{"sleeps": r.choice([0, 0, 1, 1, 2, 3]), "micro": r.random() < 0.2, "fail": r.choice([0, 0, 0, 0, 0, 1, 2, 3]),
            "children": [[r.randrange(4), r.randrange(n)] for _ in range(r.choice([0, 0, 0, 0, 1, 1, 2]))] if r.random() < 0.6 else []} for _ in range(r.randrange(1, 12))]
    total = sum(len(b["children"]) for b in beh)
    if total > len(beh) * 0.6:      # keep the history finite
        for b in beh[::2]:
            b["children"] = []
    steps = []
    for _ in range(r.randrange(2, 30)):
        k = r.random()
        steps.append(["t", r.randrange(n)] if k < 0.4 else ["tt", [r.randrange(n) for _ in range(r.randrange(2, 5))]] if k < 0.55 else ["r", r.random()])
    return {"functions": n, "sync": [int(r.random() < 0.3) for _ in range(n)], "behaviour": beh, "steps": steps}


def judge_queue(c, log, rec):
    order, started, running, done = [], 0, None, 0
    for e in log:
        if e[0] == "trigger":
            order.append((e[1], e[2]))
            rec.n("operations")
            if running is not None:
                rec.n("overtaking chances")
        elif e[0] == "start":
            check(running is None, "operation %s starts while operation %s is running" % (e[1], running), case=c)
            check(started < len(order), "an operation runs which nobody queued (or runs twice)", operation=e[1:], case=c)
            eq((e[1], e[2]), order[started], "the operation which starts is not the next one in the order queued (or has the wrong context)", case=c)
            started += 1
            running = e[1]
        elif e[0] == "end":
            eq(e[1], running, "end of an operation", case=c)
            running = None
            done += 1
            b = c["behaviour"][e[1] % len(c["behaviour"])]
            rec.n("failed operations", bool(b["fail"]))
            rec.n("nested operations", len(b["children"]))
        elif e[0] in ("triggerfail", "returnfail"):
            check(False, "queueing an operation failed", event=e, case=c)
        elif e[0] == "quiet":
            rec.n("quiet states")
            check(running is not None or started == len(order), "the queue is idle although %d operations wait" % (len(order) - started), done=done, case=c)
    eq(done, len(order), "number of operations which finished", case=c)
    rec.state((started, len(order)))


NAMES = ["a", "b", "Board", "My Preset", "Übung", "x-1_2", "Kemper/Split Rig", "(test)", "a,b", "#1".replace("#", "No ")]


def gen_route(r):
    steps = []
    for _ in range(r.randrange(2, 14)):
        k = r.random()
        if k < 0.55:
            kind = r.choice(["controller", "preset", "example", "template", "localfolder", "default", "home"])
            name = r.choice(NAMES)
            q = urllib.parse.quote(name, safe="/,()")
            if kind == "localfolder":
                steps.append(["go", "#localfolder", ["folder", None]])
            elif kind == "default":
                steps.append(["go", "#controller/pyswitch-default", ["web", "circuitpy"]])
            elif kind == "home":
                steps.append(["go", "#/", ["scan"]])
            elif kind in ("example", "template"):
                steps.append(["go", "#%s/%s" % (kind, q), ["web", "%ss/%s" % (kind, name)]])
            else:
                steps.append(["go", "#%s/%s" % (kind, q), [kind, name]])
        elif k < 0.62:
            steps.append(["refresh"])
        else:
            steps.append(["r"])
    return {"behaviour": [{"sleeps": r.choice([0, 1, 2, 3]), "fail": r.random() < 0.3} for _ in range(r.randrange(1, 6))], "steps": steps, "resetSleep": r.random() < 0.3,
            "handleFails": r.random() < 0.15, "hash": r.choice(["", "#/", "#preset/a"])}


def judge_route(c, log, rec):
    current = c["hash"] if c["hash"] not in ("", "#/") else "#/"
    want = {"#/": ["scan"], "#preset/a": ["preset", "a"]}
    expected = [want[current]]
    for s in c["steps"]:
        if s[0] == "go":
            if s[1] != current:
                expected.append(s[2])
            current = s[1]
            want[current] = s[2]
        elif s[0] == "refresh":
            expected.append(want[current])
    got, running, pending, known, resets = [], None, [], 1, 0
    for e in log:
        if e[0] == "go":
            pass
        elif e[0] == "reset":
            check(running is None, "a navigation begins while another one is loading", log=log, case=c)
            check(not pending, "a failed navigation is not reported to the user before the next one begins", failed=pending, case=c)
            resets += 1
        elif e[0] == "load":
            check(running is None, "a configuration is loaded while another one is loading", log=log, case=c)
            x = e[2]
            if x[0] == "web":
                x = ["web", urllib.parse.unquote(x[1])]
            got.append(x)
            eq(resets, len(got), "resets of the UI before load", case=c)
            running = e[1]
            rec.n("navigations")
        elif e[0] == "loaded":
            eq(e[1], running, "load finished", case=c)
            running = None
            if c["behaviour"][e[1] % len(c["behaviour"])]["fail"]:
                pending.append("fail%d" % e[1])
                rec.n("failed loads")
        elif e[0] == "handle":
            check(pending and pending[0] == e[1], "an error is reported which did not happen", reported=e[1], expected=pending, case=c)
            pending.pop(0)
        elif e[0] == "wrongcontroller":
            check(False, "configuration created for something else than the controller", case=c)
    eq(got, expected, "configurations loaded", case=c)
    check(not pending and running is None, "failed navigations never reported", failed=pending, case=c)
    rec.state(("r", len(got)))


def run_case(rng, rec, tier):
    if rng.random() < 0.65:
        c = gen_queue(rng)
        log = webapp.run("queue", **c)["log"]
        judge_queue(c, log, rec)
    else:
        c = gen_route(rng)
        log = webapp.run("route", **c)["log"]
        judge_route(c, log, rec)
    rec.sig(c)


def teardown():
    webapp.stop()
