"""The editor's warnings about displays: which actions use a display, and which of them share one at a time."""
import os, tempfile, shutil
from vlib import env, rig, editor, cfggen
from vlib.cfggen import Item
from vlib.runner import Violation, check, eq

ID = "W12"
RULE = ("A case is a random configuration for the 10-switch board: actions with displays (given by name or by position) on pages of up to three pagers (also pagers on pages of others), as normal and as hold "
        "actions, followed by edits. The real firmware is run with it, all pages are selected one by one, and the actions enabled at the same time with the same display are recorded. The editor must warn "
        "about exactly those actions and list exactly the actions using each display. Signature = the pages and displays of all actions, and the edits.")
CASES = {"quick": 400, "thorough": 4000}
FLOORS = {"page combinations": 6000, "actions compared": 14000, "warned": 8000, "not warned although the display is shared": 250, "edits": 1100, "positional displays": 700, "usages compared": 8000, "momentary displays": 300}
LEVEL_NOTE = ("Differential oracle: the real firmware's enabled actions and labels against the warnings of the real editor. All combinations of pages which can be reached with the pagers are visited, up to 48 per configuration.")
ASSUMPTIONS = ["the id of an action on a page is written like in the pager, and is one of its pages", "an action with an id has an enable_callback and vice versa"]
DISPLAYS = ["DISPLAY_HEADER_1", "DISPLAY_HEADER_2", "DISPLAY_FOOTER_1", "DISPLAY_FOOTER_2", "DISPLAY_RIG_NAME"]
SW = ["PA_MIDICAPTAIN_10_SWITCH_" + x for x in ("1", "2", "3", "4", "UP", "A", "B", "C", "D", "DOWN")]
K, L = "pyswitch.clients.kemper.actions.", "pyswitch.clients.local.actions."
# name: (module, arguments before the display, further arguments, display argument at this position or None)
ACTS = {
    "EFFECT_STATE": (K + "effect_state", [("slot_id", "KemperEffectSlot.EFFECT_SLOT_ID_%s")], [], True),
    "TAP_TEMPO": (K + "tempo", [], [], True), "SHOW_TEMPO": (K + "tempo", [], [], True), "TUNER_MODE": (K + "tuner", [], [], True),
    "MORPH_BUTTON": (K + "morph", [], [], True), "MORPH_DISPLAY": (K + "morph", [], [], True), "BANK_UP": (K + "bank_up_down", [], [], True), "LOOPER_STOP": (K + "looper", [], [], True),
    "RIG_SELECT": (K + "rig_select", [], [("rig", "3")], False), "BANK_SELECT": (K + "bank_select", [], [("bank", "2")], False), "RIG_UP": (K + "rig_up_down", [], [], False),
    "BINARY_SWITCH": (L + "binary_switch", [("mapping", "MAPPING_AMP_STATE()")], [], True), "CUSTOM_MESSAGE": (L + "custom", [], [("message", "[1, 2, 3]"), ("text", '"x"')], False),
    "HID_KEYBOARD": (L + "hid", [("keycodes", "4")], [], True), "DISPLAY_FIXED_TEXT": (L + "fixed_text", [("text", '"abc"')], [], True),
}
DISPLAY = """from pyswitch.clients.local.callbacks.splashes import SplashesCallback
from pyswitch.ui.ui import DisplayElement, DisplayBounds
from pyswitch.ui.elements import DisplayLabel
_L = {"font": "/fonts/H20.pcf", "backColor": (10, 10, 10), "stroke": 1}
%s
Splashes = SplashesCallback(DisplayElement(bounds = DisplayBounds(0, 0, 240, 240), children = [%s]))
""" % ("\n".join("%s = DisplayLabel(layout = _L, bounds = DisplayBounds(0, %d, 240, 40))" % (x, 40 * i) for i, x in enumerate(DISPLAYS)), ", ".join(DISPLAYS))


class Model:
    def __init__(self, rng):
        self.rng = r = rng
        self.displays = r.sample(DISPLAYS, r.choice([1, 2, 3, 3, 4, 4, 5]))
        self.pagers, self.inputs = [], {}
        names = r.sample(SW, r.randint(2, 8))
        ids = r.sample(['"A"', '"B"', '"C"', "1", "2", "3", "10", '"1"', '"page x"', "0"], 10)
        for n in names:
            self.inputs[n] = {False: [], True: []}
        for p in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            pages = r.sample(ids, r.randint(1, 3))      # pages of different pagers may have the same ids
            it = Item("PagerAction", [], assign="_pager%s" % ("" if p == 0 else p + 1))
            it.pages = [[("id", q)] + ([("text", '"P%d"' % i)] if r.random() < 0.5 else []) for i, q in enumerate(pages)]
            it.args = [("pages", "[%s]" % ", ".join("{%s}" % ", ".join('"%s": %s' % kv for kv in q) for q in it.pages))]
            it.disp = None
            if r.random() < 0.4:
                it.disp = r.choice(self.displays)
                it.args.append(("display", it.disp))
            if self.pagers and r.random() < 0.4:
                it.args += self.page(r.choice(self.pagers))
            it.pageids, it.on = pages, names[p % len(names)]
            self.pagers.append(it)
            self.inputs[it.on][False].append(it)
        for n in names:
            for hold in (False, True):
                for _ in range(r.choice([0, 1, 1, 2]) if not hold else r.choice([0, 0, 0, 1])):
                    l = self.inputs[n][hold]
                    l.insert(r.randrange(len(l) + 1), self.action())

    def page(self, pager):
        a = [("id", self.rng.choice(pager.pageids)), ("enable_callback", pager.assign + ".enable_callback")]
        return a if self.rng.random() < 0.7 else a[::-1]

    def action(self):
        r = self.rng
        name = r.choice(sorted(ACTS))
        mod, before, after, positional = ACTS[name]
        it = Item(name)
        it.disp = r.choice(self.displays) if r.random() < 0.75 else None
        before = [(k, v % r.choice("ABCDX").replace("X", "MOD") if "%s" in v else v) for k, v in before]
        rest = list(after)
        disp = [("display", it.disp or "None")] if it.disp or r.random() < 0.2 else []
        it.positional = bool(disp and it.disp and positional and r.random() < 0.12)
        if it.positional:
            it.args = [(None, v) for k, v in before + disp]
        else:
            rest += before + disp
        it.change = None
        if name == "SHOW_TEMPO" and r.random() < 0.6:      # shown only for a moment
            it.change = r.choice(self.displays)
            rest.append(("change_display", it.change))
        k = r.random()
        if self.pagers and k < 0.75:
            rest += self.page(r.choice(self.pagers))
        elif k < 0.8:
            rest += [("id", "None"), ("enable_callback", "None")]
        elif k < 0.85:
            rest += [("use_leds", "False")] if name in ("EFFECT_STATE", "TUNER_MODE", "RIG_SELECT", "BINARY_SWITCH") else []
        r.shuffle(rest)
        it.args += rest
        return it

    def source(self):
        r = self.rng
        out = ["from pyswitch.clients.kemper import KemperEffectSlot", "from pyswitch.hardware.devices.pa_midicaptain_10 import *", "from display import " + ", ".join(DISPLAYS),
               "from pyswitch.clients.kemper.mappings.amp import MAPPING_AMP_STATE", "from %spager import PagerAction" % L]
        used = {i.name for d in self.inputs.values() for l in d.values() for i in l}
        out += ["from %s import %s" % (ACTS[n][0], n) for n in sorted(ACTS) if n in used]
        for p in self.pagers:
            out.append("%s = %s" % (p.assign, p.call(r)))
        out.append("Inputs = [")
        for n, d in self.inputs.items():
            out.append("    {")
            out.append('        "assignment": %s,' % n)
            for hold, key in ((False, "actions"), (True, "actionsHold")):
                if d[hold] or r.random() < 0.5:
                    out.append('        "%s": [%s],' % (key, ", ".join(i.assign or i.call(r, "            ") for i in d[hold])))
            out.append("    },")
        return "\n".join(out + ["]", ""])


def minus(a, b):
    a = list(a)
    for x in b:
        a.remove(x)
    return a


def flat(x):
    return [y for e in x for y in flat(e)] if isinstance(x, (list, tuple)) else [x]


def observe(M, rec, src, d):
    """Runs the firmware: for each display, the actions using it, and those being enabled together with another one using it"""
    d = tempfile.mkdtemp(dir=d)
    for n, t in (("inputs", src), ("display", DISPLAY)):
        with open(d + "/" + n + ".py", "w") as f:
            f.write(t)
    W = env.World(config_dirs=[d, env.REPO + "/content"])
    inp = W.imp("inputs").Inputs
    disp = W.imp("display")
    model = {}
    acts = []       # (input, hold, index, firmware actions)
    for name, i in zip(M.inputs, inp):
        model[name] = rig.SwModel()
        i["assignment"] = {"model": model[name], "pixels": i["assignment"].get("pixels", ())}
        for hold, key in ((False, "actions"), (True, "actionsHold")):
            for k, a in enumerate(i.get(key, [])):
                acts.append((name, hold, k, flat(a)))
    R = rig.Rig(W, inputs=inp, splash=disp.Splashes, ui=True)
    labels = {x: getattr(disp, x) for x in DISPLAYS}
    uses = {x: [a for a in acts if any(y.label is labels[x] for y in a[3])] for x in DISPLAYS}
    together = {x: set() for x in DISPLAYS}
    seen = set()
    objs = {}
    for (name, hold, k, l) in acts:
        it = M.inputs[name][hold][k]
        if it.assign:
            objs[it.assign] = l[0]

    def look():
        for x in DISPLAYS:
            on = [a[:3] for a in uses[x] if any(y.enabled and y.label is labels[x] for y in a[3])]
            if len(on) > 1:
                together[x].update(on)
        rec.n("page combinations")

    # the pages are selected by the pagers themselves; a pager on a page which is not selected is reached by another way first
    todo = 0
    look()
    seen.add(tuple(objs[p.assign].current_page_id for p in M.pagers))
    total = 1
    for p in M.pagers:
        total *= len(p.pageids)
    order = list(M.pagers)
    guard = 0

    def visit(k):
        if k == len(order):
            look()
            seen.add(tuple(objs[p.assign].current_page_id for p in M.pagers))
            return
        p = order[k]
        for _ in p.pageids:
            visit(k + 1)
            if len(p.pageids) > 1:
                before = objs[p.assign].current_page_id
                objs[p.assign].push()
                objs[p.assign].release()
                R.tick(1)
                check(objs[p.assign].current_page_id != before, lambda: "the pager %s does not change its page" % p.assign)
    if M.pagers:
        visit(0)
        eq(len(seen), total, "page combinations reached")
    return uses, together


def run_case(rng, rec, tier):
    r = rng
    M = Model(r)
    d = tempfile.mkdtemp(prefix="w12")
    try:
        src = M.source()
        uses, together = observe(M, rec, src, d)
        E = editor.Editor(src, DISPLAY)
        steps = []
        try:
            models = {h["name"]: h["data"]["name"] for h in E.call("hardware")}
            compare(M, rec, E, uses, together, steps, src)
            for _ in range(r.choice([0, 1, 2, 4])):
                name, hold = r.choice(list(M.inputs)), r.random() < 0.3
                l = [x for x in M.inputs[name][hold] if x.assign]
                for _ in range(r.choice([0, 1, 1, 2])):
                    l.insert(r.randrange(len(l) + 1), M.action())
                M.inputs[name][hold] = l
                E.call("edit", name=models[name], edits=[{"op": "set", "hold": hold, "actions": [x.data() for x in l]}])
                steps.append((name, hold, [(x.name, x.disp) for x in l]))
                rec.n("edits")
                src = M.source()
                uses, together = observe(M, rec, src, d)
                compare(M, rec, E, uses, together, steps, src)
        finally:
            E.close()
    finally:
        shutil.rmtree(d)
    rec.sig(([(n, h, [(x.name, x.disp, [v for k, v in x.args if k in ("id", "enable_callback")]) for x in M.inputs[n][h]]) for n in M.inputs for h in (False, True)], len(steps)))


def compare(M, rec, E, uses, together, steps, src):
    from vlib.edits import bad
    try:
        marks = E.call("marks")
        msgs = E.call("checks")
        us, ua = {}, {}
        for x in DISPLAYS:
            for d, al in sorted([(us, False), (ua, True)], key=lambda y: (len(steps) + DISPLAYS.index(x) + y[1]) % 2):
                d[x] = [[u["input"], u["name"]] for u in E.call("usages", display=x, all=al)]
    except editor.EditorError as e:
        bad(rec, "after %r: the editor's checks fail: %s" % (steps[-3:], str(e)[:400]), code=src)
    # the warnings once more, after everything has been looked up
    eq(sorted(E.call("marks")), sorted(marks), "warnings shown the second time")
    got = {(n, h, k): v for n, h, k, v in marks}
    want = {}
    for n in M.inputs:
        for h in (False, True):
            for k, it in enumerate(M.inputs[n][h]):
                want[(n, h, k)] = sorted(x for x in DISPLAYS if (n, h, k) in together[x])
                rec.n("actions compared")
                rec.n("positional displays", int(bool(getattr(it, "positional", False))))
                rec.n("warned", int(bool(want[(n, h, k)])))
                if it.disp and not want[(n, h, k)] and len(uses[it.disp]) > 1:
                    rec.n("not warned although the display is shared")
    if {k: sorted(v) for k, v in got.items()} != want:
        diff = [(k, M.inputs[k[0]][k[1]][k[2]].call(None) if k in want else None, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if sorted(got.get(k, ["?"])) != want.get(k)]
        bad(rec, "after %r: the editor warns about displays of the action %r (%s): %r, expected %r" % ((steps[-3:],) + diff[0]), code=src, all=str(diff)[:3000])
    eq(sorted(m["value"] for m in msgs), sorted(x for x in DISPLAYS if together[x]), "displays the editor warns about")
    eq([m["type"] for m in msgs], ["W"] * len(msgs), "types of the messages")
    for x in DISPLAYS:
        rec.n("usages compared")
        moment = [[n, it.name] for n in M.inputs for h in (False, True) for it in M.inputs[n][h] if getattr(it, "change", None) == x]
        rec.n("momentary displays", len(moment))
        both = [[n, it.name] for n in M.inputs for h in (False, True) for it in M.inputs[n][h] if getattr(it, "change", None) == x and it.disp == x]
        got_all = sorted(ua[x])
        want_all = sorted([a[0], M.inputs[a[0]][a[1]][a[2]].name] for a in uses[x]) + moment
        check(got_all in (sorted(want_all), sorted(minus(want_all, both))), lambda: "actions the editor lists for the display %s, including momentary uses: %r, expected %r (after %r)" % (x, got_all, sorted(want_all), steps[-3:]))
        eq(sorted(us[x]), sorted([a[0], M.inputs[a[0]][a[1]][a[2]].name] for a in uses[x]), "actions the editor lists for the display %s (after %r)" % (x, steps[-3:]))
