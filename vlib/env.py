"""Fresh, virtual-time worlds in which the real code of /repo runs.

Every case gets its own World: all firmware modules are imported anew from /repo's working tree, on top of
recording stand-ins for the CircuitPython hardware modules (vlib/hw.py), a virtual clock and a virtual heap meter.
Only the libraries of the device (not part of the firmware) are replaced; nothing of the firmware is.
"""
import builtins, importlib.abc, importlib.machinery, importlib.util, os, sys, types

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, "stubs")
LIB = os.path.join(REPO, "content", "lib")

# top level module names which are loaded fresh per world
ROOTS = {"pyswitch": LIB, "adafruit_midi": STUBS}
CONFIG_NAMES = ("config", "communication", "display", "inputs", "code", "boot")

_code_cache = {}
_real_import = builtins.__import__


class Clock:
    """Virtual time in milliseconds (integer). Repo code sees it through the time module."""
    def __init__(self, start=100000):
        self.ms = start
        self.slept = []
        self.on_sleep = None

    def advance(self, ms):
        self.ms += ms

    def secs(self):
        return (self.ms + 0.25) / 1000.0


class Mem:
    def __init__(self):
        self.free = 150 * 1024
        self.alloc = 50 * 1024
        self.collects = 0


def _compile(path):
    c = _code_cache.get(path)
    if c is None:
        with open(path, "rb") as f:
            src = f.read()
        c = compile(src, path, "exec", dont_inherit=True)
        _code_cache[path] = c
    return c


_exists = {}


def _isfile(p):
    r = _exists.get(p)
    if r is None:
        r = _exists[p] = (1 if os.path.isfile(p) else 2 if os.path.isdir(p) else 0)
    return r


class _Loader(importlib.abc.Loader):
    def __init__(self, finder, path):
        self.finder, self.path = finder, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        w = self.finder.world
        module.__dict__["__builtins__"] = w.builtins
        module.__file__ = self.path
        if self.path is None:
            return
        exec(_compile(self.path), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self):
        self.world = None

    def find_spec(self, name, path=None, target=None):
        w = self.world
        if w is None:
            return None
        root = name.partition(".")[0]
        if root in w.roots:
            base = w.roots[root]
        elif name in CONFIG_NAMES and w.config_dirs:
            for d in w.config_dirs:
                p = os.path.join(d, name + ".py")
                if os.path.isfile(p):
                    return importlib.machinery.ModuleSpec(name, _Loader(self, p), origin=p)
            return None
        else:
            return None
        rel = os.path.join(base, *name.split("."))
        p = os.path.join(rel, "__init__.py")
        if _isfile(p) == 1:
            spec = importlib.machinery.ModuleSpec(name, _Loader(self, p), origin=p, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        p = rel + ".py"
        if _isfile(p) == 1:
            return importlib.machinery.ModuleSpec(name, _Loader(self, p), origin=p)
        if _isfile(rel) == 2:   # namespace style package
            spec = importlib.machinery.ModuleSpec(name, _Loader(self, None), origin=rel, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        return None


FINDER = _Finder()


class World:
    """A fresh instance of the firmware. Only one World is current at a time (per process)."""
    def __init__(self, config_dirs=None, roots=None, start_ms=None):
        from . import hw
        self.clock = Clock() if start_ms is None else Clock(start_ms)
        self.mem = Mem()
        self.printed = []
        self.config_dirs = list(config_dirs) if config_dirs else []
        self.roots = dict(ROOTS)
        if roots:
            self.roots.update(roots)
        self._make_builtins()
        if FINDER not in sys.meta_path:
            sys.meta_path.insert(0, FINDER)
        for n in [n for n in sys.modules if n.partition(".")[0] in self.roots or n in CONFIG_NAMES
                  or n.partition(".")[0] in hw.MODULE_ROOTS]:
            del sys.modules[n]
        FINDER.world = self
        self.hw = hw.install(self)

    def _make_builtins(self):
        d = dict(builtins.__dict__)
        t = types.ModuleType("time")
        clock = self.clock

        def sleep(s):
            clock.slept.append(s)
            clock.ms += int(round(s * 1000))
            if clock.on_sleep:
                clock.on_sleep(s)
        t.monotonic = lambda: clock.secs()
        t.monotonic_ns = lambda: int(clock.secs() * 1e9)
        t.time = lambda: clock.secs()
        t.sleep = sleep
        g = types.ModuleType("gc")
        mem = self.mem

        def collect():
            mem.collects += 1
        g.collect = collect
        g.mem_free = lambda: mem.free
        g.mem_alloc = lambda: mem.alloc
        g.enable = lambda: None
        g.disable = lambda: None
        self.time_module, self.gc_module = t, g
        printed = self.printed

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0:
                if name == "time":
                    return t
                if name == "gc":
                    return g
            return _real_import(name, globals, locals, fromlist, level)

        def pr(*args, **kw):
            if len(printed) < 10000:
                printed.append(" ".join(str(a) for a in args))
        d["__import__"] = imp
        d["print"] = pr
        self.builtins = d

    def imp(self, name):
        import importlib
        return importlib.import_module(name)

    def get(self, path):
        """'pyswitch.misc:PeriodCounter' -> attribute"""
        m, _, a = path.partition(":")
        return getattr(self.imp(m), a)

    def exec_source(self, src, name="<case>", extra=None):
        """Runs configuration source text in the world (as a user's config file would run)."""
        ns = {"__name__": name, "__builtins__": self.builtins}
        if extra:
            ns.update(extra)
        exec(compile(src, name, "exec", dont_inherit=True), ns)
        return ns


def precompile():
    """Compile all firmware sources in the parent so that forked workers share them."""
    for base in (os.path.join(LIB, "pyswitch"), os.path.join(STUBS, "adafruit_midi")):
        for dp, dn, fn in os.walk(base):
            for f in fn:
                if f.endswith(".py"):
                    try:
                        _compile(os.path.join(dp, f))
                    except SyntaxError:
                        pass
