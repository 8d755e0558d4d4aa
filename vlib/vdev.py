"""The project's own virtual Kemper (JavaScript), run in node and driven message by message with a virtual clock."""
import atexit, json, os, subprocess
from .env import REPO
from .runner import Violation

_proc = None


class NodeGone(Exception):
    pass


def proc():
    global _proc
    if _proc is None or _proc.poll() is not None:
        js = os.path.join(os.path.dirname(os.path.abspath(__file__)), "vdev.js")
        _proc = subprocess.Popen(["node", js, os.path.join(REPO, "web", "htdocs")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, bufsize=1)
        atexit.register(stop)
    return _proc


def stop():
    global _proc
    if _proc is not None:
        try:
            _proc.stdin.close()
            _proc.wait(5)
        except Exception:
            _proc.kill()
        _proc = None


def call(**c):
    p = proc()
    try:
        p.stdin.write(json.dumps(c) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except BrokenPipeError:
        line = ""
    if not line:
        err = p.stderr.read()
        stop()
        if "htdocs" in err or "SyntaxError" in err or "ReferenceError" in err or "TypeError" in err:
            raise Violation("the virtual device cannot be loaded: %s" % err[-1500:])
        raise NodeGone("node ended: %s" % err[-800:])
    return json.loads(line)


class VDev:
    """One virtual device"""
    def __init__(self, clock, **opts):
        self.clock = clock
        self.out = []           # messages sent by the device, not taken yet
        self.warns = []
        self.sent = 0
        opts.setdefault("productType", 2)
        self._call("new", opts=opts)

    def _call(self, op, **k):
        r = call(op=op, t=self.clock.ms, **k)
        if "exc" in r:
            raise Violation("virtual device raised: %s" % r["exc"])
        if "err" in r:
            raise Violation("virtual device reported an error: %s" % r["err"][0])
        self.warns += r.get("warn", [])
        o = [bytes(m) for m in r.get("out", [])]
        self.sent += len(o)
        self.out += o
        return r

    def take(self):
        o, self.out = self.out, []
        return o

    def step(self, msgs=(), update=True):
        self._call("step", **{"in": [list(m) for m in msgs], "up": update})

    def set(self, k, v):
        """k: ("n", page, addr) | ("c", control) | ("p",)"""
        self._call("set", k=list(k), v=v)

    def rig(self, v):
        self._call("rig", v=v)

    def bpm(self, v):
        self._call("bpm", v=v)

    def get(self, *ks):
        return self._call("get", ks=[list(k) for k in ks])["v"]

    def dump(self):
        r = self._call("dump")
        d = {}
        for k, v in r["v"].items():
            d[_key(k)] = v
        return d, r

    def props(self, msgs):
        return self._call("props", ms=[list(m) for m in msgs])["v"]


def _key(s):
    dec = json.JSONDecoder()
    i, parts = 0, []
    while i < len(s):
        o, i = dec.raw_decode(s, i)
        parts.append(("n",) + tuple(o["data"]) if "data" in o else ("c", o["control"]) if "control" in o else ("p",))
    return parts[0] if len(parts) == 1 else tuple(parts)
