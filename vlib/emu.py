"""The emulator of the web application: the firmware and the emulator's own modules as they end up in the browser's virtual file system, run by the real PySwitchRunner on a stand-in for the browser."""
import builtins, os, shutil, sys, tempfile, textwrap, types
from . import env, hw, webapp, rig

_vfs = None


def vfs():
    """Directory with the virtual file system as filled by the application (one per process)"""
    global _vfs
    if _vfs is None or _vfs[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="verif-vfs-")
        for name, text in webapp.run("vfs")["files"].items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text)
        _vfs = (os.getpid(), d)
    return _vfs[1]


def cleanup():
    global _vfs
    if _vfs and _vfs[0] == os.getpid():
        shutil.rmtree(_vfs[1], ignore_errors=True)
    _vfs = None


class Obj:
    """A plain JavaScript object seen from Python"""
    def __init__(self, d=None, **kw):
        self.__dict__.update(d or {}, **kw)

    def hasOwnProperty(self, n):
        return n in self.__dict__

    def to_py(self):
        return {k: v for k, v in self.__dict__.items()}


class Dataset(Obj):
    def to_py(self):
        return self             # not a plain object: not converted


class Ctx2d:
    def __init__(self, canvas):
        self.canvas, self.font, self.fillStyle = canvas, "", ""

    def measureText(self, t):
        return Obj(width=7 * len(t))

    def fillRect(self, *a):
        self.canvas.drawn.append(("rect", self.fillStyle) + a)

    def fillText(self, t, x, y):
        self.canvas.drawn.append(("text", self.fillStyle, t, x, y))


class Element:
    def __init__(self, id):
        self.id, self.dataset, self.style = id, Dataset(), Obj()
        self.width = self.height = 0
        self.drawn = []
        self.ctx = Ctx2d(self)

    def getContext(self, k):
        return self.ctx


class Queue(list):
    """messageQueue: a JavaScript array"""


class Wrapper:
    """What ClientController sets as MIDI wrapper"""
    def __init__(self, emu):
        self.messageQueue = Queue()
        self.emu = emu
        self.on_write = None

    def send(self, packet):
        b = bytes(packet)
        self.emu.out.append(b)
        if self.on_write:
            self.on_write(self, b)

    def feed(self, data):
        for m in rig.parse_stream(bytes(data)):
            self.messageQueue.append(m)


class EmuWorld(env.World):
    def __init__(self, start_ms):
        d = vfs()
        roots = {n: d for n in ("pyswitch", "adafruit_midi", "adafruit_hid", "wrappers", "mocks", "PySwitchRunner")}
        super().__init__(roots=roots, start_ms=start_ms)
        for n in [n for n in sys.modules if n.partition(".")[0] in hw.MODULE_ROOTS or n.partition(".")[0] in ("js", "pyodide")]:
            del sys.modules[n]
        self.document_ids = {}
        self.timers = []
        self.out, self.messages, self.errors = [], [], []
        self.wrapper = Wrapper(self)
        w = self

        class Document:
            def getElementById(self, id):
                return w.document_ids.get(id)
        self.refs = Obj(midiWrapper=self.wrapper, overrideMonotonic=lambda: self.clock.secs(),
                        messageHandler=Obj(message=lambda m, t: self.messages.append(m)),
                        errorHandler=Obj(handle=lambda m: self.errors.append(m)))
        self._mod("js", document=Document(), externalRefs=self.refs)
        self._mod("pyodide")
        self._mod("pyodide.ffi")
        self._mod("pyodide.ffi.wrappers", set_timeout=lambda f, ms: self.timers.append((f, ms)))

    def _mod(self, name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m

    def _make_builtins(self):
        d = dict(builtins.__dict__)
        printed = self.printed

        def pr(*args, **kw):
            if len(printed) < 10000:
                printed.append(" ".join(str(a) for a in args))
        t = types.ModuleType("time")
        clock, real_time = self.clock, sys.modules["time"]
        t.monotonic = lambda: clock.secs()
        t.localtime = real_time.localtime

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and name == "time" and sys.modules.get("time") is real_time:      # pyodide's own
                return t
            return env._real_import(name, globals, locals, fromlist, level)
        d["__import__"] = imp
        d["print"] = pr
        self.builtins = d

    def element(self, id, **data):
        e = self.document_ids[id] = Element(id)
        e.dataset.__dict__.update(data)
        return e

    def start(self, job, config_dir):
        """What runPython gets, and the call which follows"""
        self.config_dirs = [config_dir]
        ns = {"__name__": "__main__", "__builtins__": self.builtins}
        code = textwrap.dedent(job["code"][-1])
        exec(compile(code, "<runPython>", "exec"), ns)
        self.runner = ns["runner"]
        st = job["started"][-1]
        client = Obj(getProtocolCode=lambda: st["protocol"])
        getattr(self.runner, st["how"])(st["width"], st["height"], client, Obj(st["config"]), Obj(st["comm"]))

    def next_tick(self):
        if not self.timers:
            return False
        f, ms = self.timers.pop(0)
        f()
        return True
