"""Boot and multi-boot scripts on simulated pins and a virtual file system with write failures and power cuts."""
import builtins, glob, os
from vlib import env
from vlib.runner import Violation, check, eq

ID = "B05"
RULE = ("A case is one boot script with random switch levels and settling times, or a history of boots of one multi-boot script: switches held, failing writes, power cuts at any point of writing the choice, foreign file contents. "
        "Signature = script and history.")
CASES = {"quick": 3000, "thorough": 40000}
FLOORS = {"boots": 2300, "usb_exposed": 80, "usb_hidden": 80, "remembered": 600, "power_cuts": 120, "write_faults": 160, "foreign_contents": 40, "selected": 1100, "default_started": 800}
LEVEL_NOTE = "Exploration: the real scripts are executed; expected outcome from the documentation in their headers; every point of writing the remembered choice is a possible power cut."

MB = env.REPO + "/examples/Multiboot/"
PYS = "pyswitch.process"
# script -> switch pins in order of precedence and the firmware each starts
SCRIPTS = {
    "Standard Dual Boot": ([("GP25", "midicaptain")], False),
    "Super and Geek": ([("GP25", "midicaptain10s"), ("GP24", "midigeek")], False),
    "Super and Geek (remember last)": ([("GP25", PYS), ("GP24", "midicaptain10s"), ("GP23", "midigeek")], True),
}
IDS = {PYS: 2, "midicaptain10s": 3, "midigeek": 4}


class PowerCut(BaseException):
    pass


class VFile:
    """A file of the virtual drive; contents reach the drive in pieces."""
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode = fs, name, mode
        if "w" in mode:
            fs.step("truncate")
            fs.files[name] = ""
            fs.step("opened")
        self.pos = 0

    def write(self, s):
        self.fs.step("write")
        if self.fs.full:
            raise OSError(28, "No space left on device")
        for ch in s:
            self.fs.files[self.name] += ch
            self.fs.step("written")
        return len(s)

    def read(self, n=-1):
        s = self.fs.files[self.name][self.pos:]
        self.pos += len(s)
        return s

    def readline(self):
        return self.read()

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FS:
    def __init__(self):
        self.files = {}
        self.readonly = self.full = False
        self.cut = None
        self.steps = 0
        self.last = None

    def step(self, what):
        self.steps += 1
        self.last = what
        if self.cut is not None and self.steps >= self.cut:
            raise PowerCut()

    def open(self, name, mode="r", *a, **k):
        check(str(name).startswith("/") and "." not in os.path.basename(str(name)), lambda: "unexpected file %r" % name)
        if "w" in mode or "a" in mode or "+" in mode:
            if self.readonly:
                raise OSError(30, "Read-only filesystem")
            return VFile(self, name, mode)
        if name not in self.files:
            raise OSError(2, "No such file/directory")
        return VFile(self, name, mode)


def levels(W, rng, held):
    """Switch levels as seen right after start: bouncing until settled."""
    real = {}
    for n, p in W.hw.pins.items():
        real[n] = n not in held
        p.level = real[n]
    settle = rng.choice([0, 5, 20, 40])
    if settle:
        for p in W.hw.pins.values():
            p.level = rng.random() < 0.5
        t0 = W.clock.ms

        def on_sleep(s):
            if W.clock.ms - t0 >= settle:
                for n, p in W.hw.pins.items():
                    p.level = real[n]
        W.clock.on_sleep = on_sleep
    return settle


def run_case(rng, rec, tier):
    r = rng
    if r.random() < 0.25:
        held = set(r.sample(["GP0", "GP2", "GP9", "GP10", "GP25", "GP24"], r.choice([0, 1, 3])))
        if r.random() < 0.5:
            held.add("GP1")
        W = env.World(config_dirs=[env.REPO + "/content"])
        settle = levels(W, r, held)
        W.imp("boot")
        calls = [(c[1], c[2]) for c in W.hw.calls]
        names = [c[0] for c in calls]
        eq(names.count("disable_autoreload"), 1, "automatic reload disabled")
        if "GP1" in held:
            check("disable_usb_drive" not in names and "remount" not in names, lambda: "switch held: %r" % (calls,))
            rec.n("usb_exposed")
        else:
            eq(names.count("disable_usb_drive"), 1, "USB drive disabled")
            eq([c[1] for c in calls if c[0] == "remount"], [("/", False)], "drive made writable for the controller")
            check(names.index("disable_usb_drive") < names.index("remount"), "drive must be disabled before it can be made writable")
            rec.n("usb_hidden")
        check("enable_usb_drive" not in names and "reload" not in names, "unexpected call")
        rec.n("boots")
        rec.sig(("boot", tuple(sorted(held)), settle))
        rec.state(("boot", "GP1" in held, settle))
        return
    if r.random() < 0.05:
        W = env.World(config_dirs=[env.REPO + "/content"])
        started = []
        run_script(W, env.REPO + "/content/code.py", FS(), started)
        eq(started, [PYS], "default start script")
        rec.n("boots")
        rec.sig(("code",))
        return
    name = r.choice(sorted(SCRIPTS) + ["Super and Geek (remember last)"] * 2)
    choices, remembers = SCRIPTS[name]
    path = MB + name + "/code.py"
    fs = FS()
    hist = []
    possible = {PYS}            # what may be started when nothing is held
    if remembers and r.random() < 0.15:
        c = r.choice(["", "3", "4", "2", "1", "0", "99", " 3\n", "x", "3x", "-4", "\n", "3.0", "4"])
        fs.files["/boot_fw_id"] = c
        rec.n("foreign_contents")
        hist.append(("content", c))
        try:
            possible = {{3: "midicaptain10s", 4: "midigeek"}.get(int(c), PYS)}
        except ValueError:
            possible = {PYS, "midicaptain10s", "midigeek"}
    for boot in range(r.randint(1, 8)):
        held = {p for p, _ in choices if r.random() < 0.35}
        held |= set(r.sample(["GP0", "GP1", "GP9", "GP10"], r.choice([0, 0, 2])))
        fs.readonly, fs.full = r.random() < 0.12, r.random() < 0.08
        fs.steps = 0
        fs.cut = r.randint(1, 5) if r.random() < 0.2 else None
        W = env.World()
        settle = levels(W, r, held)
        started = []
        sel = [fw for p, fw in choices if p in held]
        try:
            run_script(W, path, fs, started)
            cut = False
        except PowerCut:
            cut = True
        except ValueError as e:
            left = fs.files.get("/boot_fw_id", "")
            if remembers and not sel and not started and not is_number(left):
                raise Violation("%s: no firmware is started (%r), the file remembering the last choice contains %r after %r" % (name, e, left, hist), key="B05-unreadable-choice")
            raise
        hist.append((tuple(sorted(held)), fs.readonly, fs.full, fs.cut if cut else None))
        rec.n("boots")
        if cut:
            rec.n("power_cuts")
            check(remembers and sel, "file written without a choice")
            possible = possible | {sel[0], PYS}
            continue
        eq(len(started), 1, "%s: firmwares started after %r" % (name, hist))
        if sel:
            eq(started[0], sel[0], "%s: firmware started with %r held" % (name, sorted(held)))
            rec.n("selected")
            if remembers:
                if fs.readonly or fs.full:
                    rec.n("write_faults")
                    possible = possible | {sel[0], PYS}
                else:
                    possible = {sel[0]}
                    rec.n("remembered")
            else:
                check(not fs.files, "file written by a script which remembers nothing")
        else:
            check(started[0] in possible, lambda: "%s: started %s, expected one of %r after %r" % (name, started[0], sorted(possible), hist))
            rec.n("default_started")
            possible = {started[0]}
        for d in W.hw.digital:
            check(d.pin.owner is None, lambda: "pin %r is still in use when the firmware starts" % d.pin)
        rec.state((name, started[0], len(possible)))
        rec.ev(name, hist[-1])
    rec.sig((name, repr(hist)))


def is_number(s):
    try:
        int(s)
        return True
    except ValueError:
        return False


def run_script(W, path, fs, started):
    with open(path, "rb") as f:
        src = f.read()
    d = dict(W.builtins)
    real = W.builtins["__import__"]

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name in (PYS, "midicaptain", "midicaptain10s", "midigeek"):
            started.append(name)
            return object()
        return real(name, globals, locals, fromlist, level)
    d["__import__"] = imp
    d["open"] = fs.open
    exec(compile(src, path, "exec", dont_inherit=True), {"__name__": "code", "__builtins__": d})
