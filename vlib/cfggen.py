"""Random configurations (inputs.py and display.py) in the way users write them: many styles of imports, named definitions, helper functions and
classes, comments everywhere. The configuration is kept as a structure, so that edits can be applied to it and rendered independently."""
import json, os
from . import env

ACT = "pyswitch.clients.kemper.actions."
MAP = "pyswitch.clients.kemper.mappings."
LOC = "pyswitch.clients.local.actions."
DEVICES = {
    "pa_midicaptain_10": ["PA_MIDICAPTAIN_10_SWITCH_" + x for x in ("1", "2", "3", "4", "UP", "A", "B", "C", "D", "DOWN")] + ["PA_MIDICAPTAIN_10_EXP_PEDAL_1", "PA_MIDICAPTAIN_10_EXP_PEDAL_2", "PA_MIDICAPTAIN_10_WHEEL_ENCODER", "PA_MIDICAPTAIN_10_WHEEL_BUTTON"],
    "pa_midicaptain_mini_6": ["PA_MIDICAPTAIN_MINI_SWITCH_" + x for x in "123ABC"],
    "pa_midicaptain_nano_4": ["PA_MIDICAPTAIN_NANO_SWITCH_" + x for x in "12AB"],
}
# name -> module; the real place of definition
WHERE = {
    "Colors": "pyswitch.colors", "DEFAULT_LABEL_COLOR": "pyswitch.colors", "DEFAULT_SWITCH_COLOR": "pyswitch.colors",
    "Keycode": "adafruit_hid.keycode", "PYSWITCH_VERSION": "pyswitch.misc", "const": "micropython",
    "DisplayElement": "pyswitch.ui.ui", "DisplayBounds": "pyswitch.ui.ui", "DisplayLabel": "pyswitch.ui.elements",
    "PushButtonAction": "pyswitch.controller.actions", "KemperEffectSlot": "pyswitch.clients.kemper",
    "RIG_SELECT_DISPLAY_TARGET_RIG": ACT + "rig_select", "RIG_SELECT_DISPLAY_CURRENT_RIG": ACT + "rig_select",
    "FIXED_SLOT_ID_GATE": ACT + "fixed_fx", "FIXED_SLOT_ID_WAH": ACT + "fixed_fx", "FIXED_SLOT_ID_TRANSPOSE": ACT + "fixed_fx",
    "RIG_SELECT": ACT + "rig_select", "BANK_UP": ACT + "bank_up_down", "BANK_SELECT": ACT + "bank_select", "EFFECT_STATE": ACT + "effect_state",
    "TUNER_MODE": ACT + "tuner", "FIXED_EFFECT_STATE": ACT + "fixed_fx", "TAP_TEMPO": ACT + "tempo", "SHOW_TEMPO": ACT + "tempo",
    "RIG_VOLUME_BOOST": ACT + "rig_volume_boost", "LOOPER_STOP": ACT + "looper", "MORPH_BUTTON": ACT + "morph",
    "ENCODER_BANK_SELECT": ACT + "bank_select_encoder",
    "BINARY_SWITCH": LOC + "binary_switch", "CUSTOM_MESSAGE": LOC + "custom", "HID_KEYBOARD": LOC + "hid", "ENCODER_BUTTON": LOC + "encoder_button",
    "DISPLAY_FIXED_TEXT": LOC + "fixed_text", "PARAMETER_UP_DOWN": LOC + "param_change", "ROTATING_MESSAGES": LOC + "rotate", "PagerAction": LOC + "pager",
    "AnalogAction": "pyswitch.controller.actions.AnalogAction", "EncoderAction": "pyswitch.controller.actions.EncoderAction",
    "MAPPING_RIG_NAME": MAP + "rig", "MAPPING_AMP_GAIN": MAP + "amp", "MAPPING_AMP_STATE": MAP + "amp", "MAPPING_FREEZE": MAP + "freeze",
    "MAPPING_ROTARY_SPEED": MAP + "rotary", "MAPPING_RIG_VOLUME": MAP + "rig",
    "BinaryParameterCallback": "pyswitch.controller.callbacks", "ParameterDisplayCallback": "pyswitch.controller.callbacks.parameter_display",
    "TunerDisplayCallback": "pyswitch.clients.kemper.callbacks.tuner_display", "KemperRigNameCallback": "pyswitch.clients.kemper.callbacks.rig_name",
    "SplashesCallback": "pyswitch.clients.local.callbacks.splashes", "BidirectionalProtocolState": "pyswitch.ui.elements",
    "Callback": "pyswitch.controller.callbacks", "ClientParameterMapping": "pyswitch.controller.client", "SystemExclusive": "adafruit_midi.system_exclusive",
    "ControlChange": "adafruit_midi.control_change", "PERFORMANCE_HELPER": "my_helpers",
}


def fix_where():
    """Take the modules from the editor's definitions where they know the name (checked against the firmware elsewhere)"""
    out = dict(WHERE)
    for fn, key in (("actions", "actions"), ("mappings", "mappings"), ("callbacks", "callbacks")):
        for c in json.load(open(os.path.join(env.REPO, "web/htdocs/definitions/%s.json" % fn))):
            for a in c[key]:
                if a["name"] in out and "." not in a["name"]:
                    out[a["name"]] = a["importPath"]
    return out


class Item:
    """One action of an input: call name, arguments [(name or None, source text)], and a name it is assigned to"""
    def __init__(self, name, args=(), assign=None):
        self.name, self.args, self.assign, self.pages = name, list(args), assign, None

    def call(self, rng=None, ind="", plain=False):
        if rng is None or plain or not self.args or rng.random() < 0.4:
            return "%s(%s)" % (self.name, ", ".join(("**" if k == "**" else k + " = " if k else "") + v for k, v in self.args))
        w = "\n" + ind + "    "
        return "%s(%s%s\n%s)" % (self.name, w, ("," + w).join(("**" if k == "**" else k + rng.choice(["=", " = "]) if k else "") + v for k, v in self.args) + rng.choice(["", ","]), ind)

    def data(self):
        """The data the editor's user interface passes"""
        a = []
        for k, v in self.args:
            if self.pages is not None and k == "pages":
                a.append({"name": k, "value": [{x: y for x, y in p} for p in self.pages]})
            else:
                a.append({"name": None, "value": "**" + v} if k == "**" else {"name": k, "value": v})
        return {"name": self.name, "assign": self.assign, "arguments": a}


class Input:
    def __init__(self, assignment):
        self.assignment, self.actions, self.hold, self.opts = assignment, None, None, {}


class Gen:
    def __init__(self, rng, hostile=True):
        self.rng, self.hostile = rng, hostile
        self.fresh = False        # for new content: only use names the editor knows
        self.hw_style = "star" if not hostile or rng.random() < 0.75 else "names"
        self.where = fix_where()
        self.device = rng.choice(sorted(DEVICES))
        self.imports = {"inputs": set(), "display": set()}
        self.nc = 0
        self.keep = []
        self.public = []          # labels
        self.names = {"inputs": [], "display": []}
        self.chunks = {"inputs": [], "display": []}     # source text before the central definition
        self.tail = {"inputs": [], "display": []}
        self.ids = 0
        self.pagers = []
        self.file = "display"
        self.make_display()
        self.file = "inputs"
        self.make_inputs()

    # ------------------------------------------------------------------ helpers
    def use(self, n):
        self.imports[self.file].add(n)
        return n

    def comment(self, keep=True):
        self.nc += 1
        c = "# %s %d" % ("keep" if keep else "inner", self.nc)
        if keep:
            self.keep.append(c)
        return c

    def name(self, prefix="_x"):
        self.ids += 1
        return "%s_%d" % (prefix, self.ids)

    def string(self):
        r = self.rng
        t = r.choice(["Tuner", "FX {name}", "it's", "a b", "", "Ä→", "x=1, (y)", "#no comment", "[1]", "None", "Colors.RED", "100%"])
        k = r.random()
        if k < 0.55:
            return '"%s"' % t
        if k < 0.75:
            return "'%s'" % t.replace("'", "\\'")
        if not self.hostile:
            return '"%s"' % t
        if k < 0.8:
            return '"a\\"b\\n%s"' % t
        if k < 0.84:
            return 'r"\\d%s"' % t
        if k < 0.88:
            return '"%s" "more"' % t
        if k < 0.91:
            return '"""x\n%s"""' % t
        if k < 0.95:
            return 'f"{1 + 2} %s"' % t.replace("{name}", "")
        return '"%s" + str(%d)' % (t, r.randrange(9))

    def scalar(self):
        r = self.rng
        k = r.random()
        if k < 0.3:
            return self.string()
        if k < 0.55:
            return r.choice(["0", "1", "127", "0x1f", "-3", "0.25", "1e3", "16383", "2 * 3 + 1", "(5)"])
        if k < 0.7:
            return r.choice(["None", "True", "False"])
        if k < 0.8:
            self.use("Colors")
            return r.choice(["Colors.RED", "Colors.BLUE", "Colors.LIGHT_GREEN"])
        if k < 0.86:
            return "(%d, %d, %d)" % (r.randrange(256), r.randrange(256), r.randrange(256))
        if k < 0.94 and self.names[self.file]:
            return r.choice(self.names[self.file])
        self.use("PushButtonAction")
        return "PushButtonAction." + r.choice(["MOMENTARY", "LATCH", "HOLD_MOMENTARY"])

    def value(self, depth=0):
        r = self.rng
        k = r.random()
        if k < 0.5 or depth > 2:
            return self.scalar()
        if k < 0.58:
            return self.mapping()
        if k < 0.66:
            n = r.choice([0, 1, 2, 3])
            sep = ", " if r.random() < 0.6 else ",\n            "
            return "[" + sep.join(self.value(depth + 1) for _ in range(n)) + ("," if n and r.random() < 0.2 else "") + "]"
        if k < 0.73:
            n = r.choice([0, 1, 2])
            q = "'" if self.hostile and r.random() < 0.3 else '"'
            return "{" + ", ".join("%s%s%s: %s" % (q, x, q, self.value(depth + 1)) for x in r.sample(["font", "color", "text", "a b"], n)) + "}"
        if not self.hostile:
            return self.scalar()
        if k < 0.77:
            return "lambda %s: %s" % (r.choice(["", "x", "x, y = 2", "action"]), r.choice(["None", "1 + 2", "%s" % self.scalar()]))
        if k < 0.8:
            return "%s if %s else %s" % (self.scalar(), r.choice(["True", "1 > 2"]), self.scalar())
        if k < 0.83:
            return "{%s}" % ", ".join("%s: %s" % (x, self.scalar()) for x in r.sample(["1", "2", "(1, 2)", "None", "0x10"], 2))
        if k < 0.85:
            return "[x * 2 for x in range(%d)]" % r.randrange(5)
        if k < 0.87:
            return "[*range(3), %s]" % self.scalar()
        if k < 0.89:
            return '{**{"a": 1}, "b": %s}' % self.scalar()
        if self.fresh:
            return self.scalar()
        if k < 0.91:
            return "[1, 2, 3][%d]" % r.randrange(3)
        if k < 0.93:
            return "(%s + \n        %s)" % (r.randrange(9), r.randrange(9))
        if k < 0.95:
            return '"one"\n            "two"'
        if k < 0.97:
            return "1 +\n            2"
        return "not True"

    def mapping(self):
        r = self.rng
        k = r.random()
        if k < 0.5 or self.fresh:
            n = r.choice((["MAPPING_RIG_NAME"] if not self.fresh else []) + ["MAPPING_AMP_GAIN", "MAPPING_AMP_STATE", "MAPPING_FREEZE", "MAPPING_ROTARY_SPEED", "MAPPING_RIG_VOLUME"])
            self.use(n)
            a = ""
            if n in ("MAPPING_FREEZE", "MAPPING_ROTARY_SPEED"):
                self.use("KemperEffectSlot")
                a = r.choice(["KemperEffectSlot.EFFECT_SLOT_ID_A", "slot_id = KemperEffectSlot.EFFECT_SLOT_ID_DLY"])
            return "%s(%s)" % (n, a)
        self.use("ClientParameterMapping")
        self.use("ControlChange")
        return "ClientParameterMapping.get(name = %s, set = ControlChange(%d, 0))" % (self.string(), r.randrange(128))

    # ------------------------------------------------------------------ display
    def make_display(self):
        r = self.rng
        ch = self.chunks["display"]
        self.use("DisplayLabel"), self.use("DisplayBounds"), self.use("DisplayElement")
        if r.random() < 0.7:
            n = self.name("_W")
            self.use("const")
            ch.append((n, "const(240)"))
            self.names["display"].append(n)
        if r.random() < 0.6:
            n = self.name("_LAYOUT")
            ch.append((n, self.layout()))
            self.layout_name = n
        else:
            self.layout_name = None
        self.extras("display")
        for i in range(r.randrange(1, 7)):
            n = "DISPLAY_%s_%d" % (r.choice(["HEADER", "FOOTER", "X"]), i)
            self.public.append(n)
            ch.append((n, self.label()))
        self.unused_label = r.random() < 0.4
        self.splash_children = [x for x in self.public if r.random() < 0.8] + ([self.label()] if r.random() < 0.5 else [])
        if r.random() < 0.3 and self.splash_children:
            self.splash_children.append(r.choice(self.public)) if self.hostile else None
        self.splash_kind = r.choice(["tuner", "element", "splashes", "tuner"])
        self.tail_extras("display")

    def bounds(self):
        r = self.rng
        self.use("DisplayBounds")
        if self.names["display"] and r.random() < 0.3:
            w = self.names["display"][0]
        else:
            w = str(r.randrange(10, 240))
        if r.random() < 0.3:
            return "DisplayBounds(%d, %d, %s, %d)" % (r.randrange(240), r.randrange(240), w, r.randrange(10, 240))
        return "DisplayBounds(x = %d, y = %d, w = %s, h = %d)" % (r.randrange(240), r.randrange(240), w, r.randrange(10, 240))

    def layout(self):
        r = self.rng
        self.use("DEFAULT_LABEL_COLOR")
        q = "'" if self.hostile and r.random() < 0.15 else '"'
        return "{\n    %sfont%s: \"/fonts/H20.pcf\",\n    \"backColor\": DEFAULT_LABEL_COLOR%s\n}" % (q, q, r.choice(["", ",", ", \"text\": %s" % self.string(), ",   " + self.comment(False)]))

    def label(self):
        r = self.rng
        a = ["layout = " + (self.layout_name if self.layout_name and r.random() < 0.6 else self.layout()), "bounds = " + self.bounds()]
        if r.random() < 0.2:
            self.use("ParameterDisplayCallback")
            a.append("callback = ParameterDisplayCallback(mapping = %s)" % self.mapping())
        if r.random() < 0.15:
            a.append("scale = %s" % self.scalar())
        r.shuffle(a)
        return "DisplayLabel(%s)" % (", ".join(a) if r.random() < 0.3 else "\n    " + ",\n    ".join(a) + "\n")

    def splashes(self):
        el = "DisplayElement(\n        bounds = DisplayBounds(0, 0, 240, 240),\n        children = [%s]\n    )" % ", ".join(self.splash_children)
        if self.splash_kind == "tuner":
            return "TunerDisplayCallback(\n    splash_default = %s\n)" % el
        if self.splash_kind == "splashes":
            return "SplashesCallback(splashes = %s)" % el
        return el

    # ------------------------------------------------------------------ inputs
    def make_inputs(self):
        r = self.rng
        self.extras("inputs")
        ch = self.chunks["inputs"]
        for i in range(r.choice([0, 0, 1, 2])):
            n = self.name("_MAP")
            ch.append((n, self.mapping()))
            self.names["inputs"].append(n)
        listed = None
        if self.hostile and r.random() < 0.08:
            listed = (self.name("_list"), [self.action() for _ in range(r.choice([1, 2]))])
            ch.append((listed[0], self.items_text(listed[1], True)))
        if r.random() < 0.5:
            self.pager()
        hw = list(DEVICES[self.device])
        r.shuffle(hw)
        self.hw_all = hw
        self.inputs = []
        for h in hw[:r.randrange(0 if r.random() < 0.05 else 1, min(len(hw), 6) + 1)]:
            i = Input(h)
            if r.random() < 0.9:
                i.actions = [self.action() for _ in range(r.choice([0, 1, 1, 2, 3]))]
            if r.random() < 0.3:
                i.hold = [self.action() for _ in range(r.choice([0, 1, 2]))]
            if r.random() < 0.2:
                i.opts["holdTimeMillis"] = str(r.randrange(100, 2000))
            if r.random() < 0.1:
                i.opts["holdRepeat"] = r.choice(["True", "False"])
            self.inputs.append(i)
        if listed and self.inputs:
            self.inputs[-1].list_name, self.inputs[-1].actions = listed
        self.tail_extras("inputs")

    def pager(self):
        r = self.rng
        n = self.name("_pager")
        self.use("PagerAction"), self.use("Colors")
        pages = [[("id", k)] + ([("color", "Colors.RED")] if r.random() < 0.7 else []) + ([("text", self.string())] if r.random() < 0.5 else []) for k in ("1", "2", '"x"')[:r.randrange(1, 4)]]
        text = "[%s]" % ", ".join("{%s}" % ", ".join('"%s": %s' % kv for kv in p) for p in pages)
        if self.hostile and not self.fresh and r.random() < 0.15:
            m = self.name("_pages")
            self.chunks["inputs"].append((m, text))
            text = m
        it = Item("PagerAction", [("pages", text)] + ([("display", r.choice(self.public))] if r.random() < 0.6 and self.public else []), n)
        it.pages = pages
        it.text = None if self.fresh else it.call()       # definition in the file
        self.pagers.append(it)
        return it

    def action(self, allow_pager=True):
        r = self.rng
        k = r.random()
        pagers = [p for p in self.pagers if not self.fresh or p.text is not None]
        if allow_pager and pagers and k < 0.25:
            p = r.choice(pagers)
            if not getattr(p, "placed", False):
                p.placed = True
                return p
            return Item(p.assign + ".proxy", [("page_id", r.choice(["1", "2", '"x"']))])
        n = r.choice(["RIG_SELECT", "BANK_UP", "EFFECT_STATE", "TUNER_MODE", "FIXED_EFFECT_STATE", "TAP_TEMPO", "RIG_VOLUME_BOOST", "BINARY_SWITCH", "CUSTOM_MESSAGE", "HID_KEYBOARD", "PushButtonAction", "AnalogAction", "EncoderAction", "LOOPER_STOP", "PARAMETER_UP_DOWN"])
        self.use(n)
        args = []
        if n == "RIG_SELECT":
            args.append((None if self.hostile and r.random() < 0.2 else "rig", str(r.randrange(1, 6))))
            if r.random() < 0.5:
                args.append(("display_mode", self.use(r.choice(["RIG_SELECT_DISPLAY_TARGET_RIG", "RIG_SELECT_DISPLAY_CURRENT_RIG"]))))
        elif n == "EFFECT_STATE":
            self.use("KemperEffectSlot")
            args.append(("slot_id", "KemperEffectSlot.EFFECT_SLOT_ID_%s" % r.choice("ABCD")))
        elif n == "FIXED_EFFECT_STATE":
            args.append(("slot", self.use(r.choice(["FIXED_SLOT_ID_GATE", "FIXED_SLOT_ID_WAH"]))))
        elif n == "HID_KEYBOARD":
            self.use("Keycode")
            args.append(("keycodes", r.choice(["Keycode.A", "[Keycode.LEFT_CONTROL, Keycode.C]", "(Keycode.A,)"])))
        elif n in ("BINARY_SWITCH", "AnalogAction", "EncoderAction", "PARAMETER_UP_DOWN"):
            args.append(("mapping", r.choice(self.names["inputs"]) if self.names["inputs"] and r.random() < 0.3 else self.mapping()))
        elif n == "CUSTOM_MESSAGE":
            args.append(("message", r.choice(["[1, 2, 3]", "[0xB0, 10, 127]", "bytes([1, 2])"])))
        elif n == "PushButtonAction":
            args.append((None, '{"callback": %s}' % self.mapping() if r.random() < 0.8 else "{}"))
        if self.public and r.random() < 0.6:
            args.append(("display", r.choice(self.public)))
        if pagers and r.random() < 0.3:
            args += [("id", r.choice(["1", "2"])), ("enable_callback", r.choice(pagers).assign + ".enable_callback")]
        if r.random() < 0.35:
            args.append((r.choice(["text", "color", "led_brightness", "extra"]), self.value()))
        if self.hostile and r.random() < 0.04:
            args.append(("**", '{"mode": 1}'))
        return Item(n, args)

    # ------------------------------------------------------------------ other code of the user
    def extras(self, f):
        r = self.rng
        ch = self.chunks[f]
        for _ in range(r.choice([0, 1, 2, 3])):
            k = r.random()
            if k < 0.35:
                n = self.name(r.choice(["_C", "CONST"]) if f == "inputs" else "_C")
                v = self.value(1)
                ch.append((n, "(%s)" % v if "\n" in v and v[0] not in "[{(" else v))
                self.names[f].append(n)
            elif k < 0.5:
                n = self.name("_fn")
                c = self.use("Colors") and self.scalar()
                ch.append("def %s(a = 1, *b):   %s\n    %s\n    return (a, %s)" % (n, self.comment(), self.comment(), c))
                self.names[f].append(n)
            elif k < 0.6:
                n = self.name("_Cls")
                self.use("Callback")
                ch.append("class %s(Callback):\n    %s\n    def __init__(self, x = %s):\n        Callback.__init__(self)\n        self.x = x   %s" % (n, self.comment(), self.scalar(), self.comment()))
                m = self.name("_obj")
                ch.append((m, n + "()"))
                self.names[f].append(m)
            elif k < 0.7:
                n = self.name("_y")
                ch.append("if True:   %s\n    %s = 1\nelse:\n    %s = %s" % (self.comment(), n, n, self.scalar()))
            elif k < 0.78 and self.names[f]:
                n = self.name("_alias")
                if self.hostile:
                    ch.append((n, r.choice(self.names[f])))
                    self.names[f].append(n)
            elif k < 0.84 and self.hostile:
                n, m = self.name("_t"), self.name("_t")
                ch.append("%s, %s = 1, %s" % (n, m, self.scalar()))
                self.names[f] += [n, m]
            elif k < 0.88 and self.hostile:
                n, m = self.name("_d"), self.name("_d")
                ch.append((n, '{"a": 1}'))
                ch.append('%s["b"] = %s' % (n, self.scalar()))
                ch.append("%s = %s = %s" % (m, self.name("_e"), self.scalar()))
            elif k < 0.92 and self.hostile:
                # own function with the name of a framework action
                n = r.choice(["TUNER_MODE", "BANK_UP", "Colors2"])
                if n != "Colors2" and f == "inputs" and not any(isinstance(x, str) and n in x for x in ch):
                    self.where = dict(self.where, **{n: "my_actions"})
            elif k < 0.96 and self.hostile:
                ch.append("def %s():\n    from pyswitch.colors import Colors   %s\n    return Colors.BLUE" % (self.name("_loc"), self.comment()))
            else:
                again = any(isinstance(x, str) and x.startswith("import math") for x in ch)
                ch.append("import math   %s" % self.comment() if not again else "")
                n = self.name("_pi")
                ch.append((n, "math.floor(3)"))

    def tail_extras(self, f):
        r = self.rng
        if r.random() < 0.2:
            self.tail[f].append("def %s():\n    return 1   %s" % (self.name("_after"), self.comment()))
        if r.random() < 0.2:
            self.tail[f].append(self.comment())

    # ------------------------------------------------------------------ rendering
    def import_lines(self, f):
        r, out = self.rng, []
        names = sorted(self.imports[f])
        r.shuffle(names)
        by = {}
        for n in names:
            m = self.where[n]
            if self.style == "grouped":
                by.setdefault(m, []).append(n)
            else:
                out.append("from %s import %s" % (m, n))
        for m, ns in by.items():
            k = r.random()
            if k < 0.5 or len(ns) == 1:
                out.append("from %s import %s" % (m, ", ".join(ns)))
            else:
                out.append("from %s import (\n    %s\n)" % (m, ",\n    ".join(ns)))
        return out

    def render(self, style=None, plain=False):
        """Source of both files; plain renders without comments and in a fixed style (same meaning)"""
        r = self.rng
        self.style = style or r.choice(["single", "grouped"])
        res = {}
        for f in ("display", "inputs"):
            self.file = f
            if f == "display":
                self.use({"tuner": "TunerDisplayCallback", "splashes": "SplashesCallback", "element": "DisplayElement"}[self.splash_kind])
                body = list(self.chunks[f]) + [("Splashes", self.splashes())]
            else:
                body = list(self.chunks[f])
                for p in self.pagers:
                    if p.text is not None:
                        body.append((p.assign, p.text))
                body.append(("Inputs", self.inputs_text(plain)))
            out = []
            if not plain and r.random() < 0.3:
                out.append(self.comment() + "\n" + self.comment())
                if r.random() < 0.5:
                    out[-1] += "\n"
            imp = self.import_lines(f)
            if f == "inputs":
                hw = [i.assignment for i in self.inputs]
                hwl = "from pyswitch.hardware.devices.%s import %s" % (self.device, "*" if self.hw_style == "star" or not hw else ", ".join(hw))
                imp.insert(0 if r.random() < 0.8 else len(imp), hwl)
                labels = self.used_labels()
                if labels:
                    if r.random() < 0.5:
                        imp += ["from display import " + ", ".join(labels)]
                    else:
                        imp += ["from display import " + x for x in labels]
                if not plain and self.hostile and r.random() < 0.3:
                    imp.append("from pyswitch.clients.kemper.actions.morph import MORPH_BUTTON")      # not used
            out += imp
            for b in body + self.tail[f]:
                if not b:
                    out.append("import math")        # redundant, may be removed
                    continue
                if not plain and r.random() < 0.25:
                    out.append("\n" * r.randrange(3) + self.comment())
                if isinstance(b, tuple):
                    out.append("%s = %s%s" % (b[0], b[1], "   " + self.comment() if not plain and r.random() < 0.15 else ""))
                else:
                    out.append(b)
                if not plain and r.random() < 0.4:
                    out.append("")
            res[f] = "\n".join(out) + ("" if not plain and r.random() < 0.2 else "\n")
        return res["inputs"], res["display"]

    def used_labels(self):
        txt = self.inputs_text(True) + " ".join(p.text or "" for p in self.pagers) + " ".join(b[1] if isinstance(b, tuple) else b for b in self.chunks["inputs"])
        return [x for x in self.public if x in txt]

    def items_text(self, items, plain):
        r = self.rng
        if not items:
            return "[]"
        t = []
        for it in items:
            c = it.assign if it.assign else it.call(None if plain else r, "            ")
            t.append(("" if plain or r.random() < 0.85 else self.comment(False) + "\n            ") + c)
        return "[\n            %s\n        ]" % ",\n            ".join(t)

    def inputs_text(self, plain):
        r = self.rng
        out = []
        for i in self.inputs:
            e = ['"assignment": ' + i.assignment]
            if i.actions is not None:
                e.append('"actions": ' + (getattr(i, "list_name", None) or self.items_text(i.actions, plain)))
            if i.hold is not None:
                e.append('"actionsHold": ' + self.items_text(i.hold, plain))
            e += ['"%s": %s' % kv for kv in i.opts.items()]
            c = "" if plain or r.random() < 0.7 else self.comment(False) + "\n    "
            out.append("    " + c + "{\n        " + ",\n        ".join(e) + "\n    }")
        return "[\n" + ",\n".join(out) + "\n]" if out else "[]"
