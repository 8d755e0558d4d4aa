"""What the editor's user interface offers: actions, mappings, callbacks with their parameters and values."""
import os
from . import env
from .editor import Editor

_cat = None
T10 = "web/htdocs/templates/MIDICaptain 10/inputs.py"


def template():
    def rd(f):
        return open(os.path.join(env.REPO, f)).read()
    return rd(T10), rd("content/display.py")


def load():
    global _cat
    if _cat is None:
        e = Editor(*template())
        _cat = e.call("actions")
        e.close()
    return _cat


def items(group):
    return [(c["client"], a) for c in load()[group] for a in c["items"]]


def pick(values, n):
    if len(values) <= n:
        return values
    return [values[round(k * (len(values) - 1) / (n - 1))] for k in range(n)]


def arguments(item, over=()):
    """Arguments the user interface passes: required parameters with the value offered first, others only if changed"""
    over = dict(over)
    out = []
    for p in item["params"]:
        if p["name"] in over:
            out.append({"name": p["name"], "value": over[p["name"]]})
        elif p["default"] is None and p["metaDefault"] not in (None, ""):
            out.append({"name": p["name"], "value": str(p["metaDefault"])})
    return out


def variants(item, limit=8):
    """Base combination and one per offered value of each parameter"""
    out = [arguments(item)]
    for p in item["params"]:
        vals = [str(v["value"]) for v in p["values"] or []]
        if p["type"] == "color":
            vals = vals or ["Colors.LIGHT_BLUE", "(1, 2, 3)"]
        elif p["type"] == "bool":
            vals = vals or ["True", "False"]
        elif p["type"] == "text" and not vals:
            vals = [p["text"]]
        if p["metaDefault"] not in (None, "") and p["type"] != "select-page":
            vals = vals + [str(p["metaDefault"])]
        for v in pick(vals, limit):
            a = arguments(item, {p["name"]: v})
            if a not in out:
                out.append(a)
    return out


def assignments(e):
    """Assignable names of the open configuration's hardware by kind"""
    out = {}
    for h in e.call("hardware"):
        out.setdefault(h["data"]["model"]["type"] if isinstance(h["data"].get("model"), dict) else None, []).append((h["name"], h["data"]["name"]))
    return out
