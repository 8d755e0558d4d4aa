"""Random edit sessions in the web application's configuration model, mirrored by the generator's own structure."""
import copy
from . import cfggen, meaning
from .editor import Editor, EditorError
from .runner import Violation

FRAMEWORK_ONLY = ("ClientParameterMapping", "ControlChange", "Callback", "ParameterDisplayCallback")


def bad(rec, msg, **info):
    for k, v in info.items():
        rec.ev(k, v)
    raise Violation(msg)


def find_children(node):
    """First list of children in the tree of the splashes"""
    if isinstance(node, dict):
        for a in node.get("arguments", []):
            if a.get("name") == "children":
                return a
            r = find_children(a.get("value"))
            if r:
                return r
    return None


class Session:
    def __init__(self, rng, rec, observe, hostile=None):
        self.rng, self.rec, self.observe = rng, rec, observe
        self.g = g = cfggen.Gen(rng, rng.random() < 0.6 if hostile is None else hostile)
        base = cfggen.fix_where()
        self.src = g.render()
        for n in ("TUNER_MODE", "BANK_UP"):
            if n not in g.imports["inputs"]:
                g.where = dict(g.where, **{n: base[n]})
        rec.ev("inputs.py", self.src[0])
        rec.ev("display.py", self.src[1])
        self.style = g.style
        self.removed = []
        self.steps = []
        try:
            self.e = Editor(*self.src)
        except EditorError as x:
            bad(rec, "the editor cannot open a valid configuration: %s" % x)

    def call(self, op, **k):
        self.rec.ev(op, k)
        try:
            return self.e.call(op, **k)
        except EditorError as x:
            bad(self.rec, "the editor failed: %s" % str(x)[:1200], code=self.last)

    @property
    def last(self):
        try:
            return self.e.code()
        except Exception as x:
            return repr(x)

    def run(self, n):
        try:
            for _ in range(n):
                self.step()
                self.rec.n("edits")
                code = self.e.code()
                self.observe(self, code)
        finally:
            self.e.close()

    def fresh_items(self, n):
        g = self.g
        g.fresh = True
        g.file = "inputs"
        out = []
        for _ in range(n):
            if self.rng.random() < 0.12:
                p = g.pager()
                p.placed = True
                out.append(p)
            else:
                out.append(g.action())
        return out

    def model_name(self, assignment):
        if not hasattr(self, "models"):
            self.models = {h["name"]: h["data"]["name"] for h in self.e.call("hardware")}
        return self.models[assignment]

    def step(self):
        r, g = self.rng, self.g
        k = r.random()
        if k < 0.12:
            return self.splash_step()
        if k < 0.17:
            return self.source_step()
        if k < 0.21:
            self.call("update")
            self.steps.append("update")
            return
        i = r.choice(g.inputs) if g.inputs and r.random() < 0.85 else None
        if i is None:
            free = [h for h in g.hw_all if h not in [x.assignment for x in g.inputs]]
            if not free:
                i = r.choice(g.inputs)
            else:
                i = cfggen.Input(r.choice(free))
                g.inputs.append(i)
                self.steps.append("new")
        name = self.model_name(i.assignment)
        edits, pending = [], False
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            hold = r.random() < 0.35
            cur = list((i.hold if hold else i.actions) or [])
            q = r.random()
            e = {"hold": hold}
            if q < 0.1:
                v = r.randrange(100, 3000)
                i.opts["holdTimeMillis"] = str(v)
                edits.append({"op": "time", "value": v})
                self.steps.append("time")
                pending = False
                self.commit()
                continue
            if q < 0.16:
                v = r.random() < 0.5
                i.opts["holdRepeat"] = str(v)
                edits.append({"op": "repeat", "value": v})
                self.steps.append("repeat")
                pending = False
                self.commit()
                continue
            if q < 0.4 or not cur:
                it = self.fresh_items(1)[0]
                e.update(op="add", action=it.data())
                cur = cur + [it]
            elif q < 0.6:
                x = r.randrange(len(cur))
                old = cur[x]
                if old.assign and r.random() < 0.5:
                    # change the arguments of a named action
                    it = old
                    it.args = [a for a in it.args if a[0] != "display"] + ([("display", r.choice(g.public))] if g.public and r.random() < 0.6 else [])
                else:
                    it = self.fresh_items(1)[0]
                e.update(op="replace", k=x, action=it.data())
                cur = cur[:x] + [it] + cur[x + 1:]
            elif q < 0.75:
                x = r.randrange(len(cur))
                e.update(op="remove", k=x)
                cur = cur[:x] + cur[x + 1:]
            elif q < 0.88:
                order = list(range(len(cur)))
                r.shuffle(order)
                e.update(op="order", order=order)
                cur = [cur[x] for x in order]
            else:
                cur = self.fresh_items(r.randrange(4))
                e.update(op="set", actions=[it.data() for it in cur])
            if hold:
                i.hold = cur
            else:
                i.actions = cur
                i.list_name = None
            e["noUpdate"] = r.random() < 0.4
            for it in cur:
                if it.pages is not None:      # the editor writes the pages as a list
                    it.args = [(a, "[%s]" % ", ".join("{%s}" % ", ".join('"%s": %s' % kv for kv in p) for p in it.pages) if a == "pages" else v) for a, v in it.args]
            pending = e["noUpdate"]
            if not pending:
                self.commit()
            edits.append(e)
            self.steps.append(e["op"] + ("H" if hold else ""))
        if pending:
            self.commit()
        self.call("edit", name=name, edits=edits, update=pending or r.random() < 0.1, held=r.random() < 0.4)

    def commit(self):
        """The code gets updated: named actions are written"""
        for i in self.g.inputs:
            for it in (i.actions or []) + (i.hold or []):
                if it.assign:
                    it.text = it.call()

    def splash_step(self):
        r, g = self.rng, self.g
        tree = self.call("splashes")
        ch = find_children(tree)
        kids = ch["value"]
        if not isinstance(kids, list):
            return
        if len(kids) != len(g.splash_children):
            bad(self.rec, "the editor shows %d elements on the splash, which has %d" % (len(kids), len(g.splash_children)), code=self.last)
        g.file = "display"
        q = r.random()
        if kids and q < 0.2:
            x = r.randrange(len(kids))
            kids.pop(x)
            g.splash_children.pop(x)
            self.steps.append("del label")
        elif kids and q < 0.4:
            order = list(range(len(kids)))
            r.shuffle(order)
            kids[:] = [kids[x] for x in order]
            g.splash_children[:] = [g.splash_children[x] for x in order]
            self.steps.append("order labels")
        elif kids and q < 0.6:
            x = r.randrange(len(kids))
            name = g.splash_children[x]
            if g.splash_children.count(name) > 1:
                return
            text, data = self.new_label()
            if name in g.public:
                data["assign"] = name
                k = [j for j, b in enumerate(g.chunks["display"]) if isinstance(b, tuple) and b[0] == name][0]
                g.chunks["display"][k] = (name, text)
            else:
                g.splash_children[x] = text
            kids[x] = data
            self.steps.append("change label")
        else:
            text, data = self.new_label()
            name = "DISPLAY_NEW_%d" % len(g.public)
            if r.random() < 0.8:
                data["assign"] = name
                g.chunks["display"].append((name, text))
                g.public.append(name)
                g.splash_children.append(name)
            else:
                g.splash_children.append(text)
            kids.append(data)
            self.steps.append("new label")
        self.call("setSplashes", splashes=tree)

    def new_label(self):
        r, g = self.rng, self.g
        for n in ("DisplayLabel", "DisplayBounds", "DEFAULT_LABEL_COLOR", "Colors"):
            g.use(n)
        b = [str(r.randrange(240)) for _ in range(4)]
        lay = [("font", '"/fonts/H20.pcf"'), ("backColor", r.choice(["DEFAULT_LABEL_COLOR", "Colors.BLUE", "(1, 2, 3)"]))] + ([("text", r.choice(['"Hey"', "'it''s'"]))] if r.random() < 0.5 else [])
        text = "DisplayLabel(bounds = DisplayBounds(x = %s, y = %s, w = %s, h = %s), layout = {%s})" % (*b, ", ".join('"%s": %s' % kv for kv in lay))
        data = {"name": "DisplayLabel", "arguments": [
            {"name": "bounds", "value": {"name": "DisplayBounds", "arguments": [{"name": n, "value": v} for n, v in zip("xywh", b)]}},
            {"name": "layout", "value": {"arguments": [{"name": n, "value": v} for n, v in lay]}}]}
        return text, data

    def source_step(self):
        """The user replaces the source of one file"""
        g = self.g
        cur = self.e.code()
        if self.rng.random() < 0.5:
            f, code = "inputs_py", cur["inputs_py"] + "\n# changed by hand\n"
            n = g.name("_hand")
            code += "%s = 1\n" % n
            g.tail["inputs"].append("%s = 1" % n)
        else:
            f, code = "display_py", cur["display_py"] + "\n# changed by hand\n"
        self.call("source", file=f, code=code)
        self.steps.append("source")
        now = self.e.code()
        if now[f] != code or any(now[x] != cur[x] for x in now if x != f):
            bad(self.rec, "replacing the source of %s in the editor did not result in this source" % f, code=now)

    def expected(self):
        return self.g.render(self.style, True)
