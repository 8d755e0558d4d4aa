"""The web application's configuration editor: its JavaScript model runs in node and talks to the real Python parser (libcst), run here."""
import ast, atexit, json, os, subprocess, sys, tempfile, textwrap, traceback
from . import env
from .runner import Violation

_proc = None
_dir = None
_handles = {}


class EditorError(Exception):
    """The editor failed to process something"""


def prepare():
    """The file system the parser sees in the browser, and its modules."""
    global _dir
    if _dir is not None:
        os.chdir(_dir)
        return
    vt = "/opt/veriftools/pyvenv/lib/python%d.%d/site-packages" % sys.version_info[:2]
    if vt not in sys.path:
        sys.path.append(vt)
    sys.path.insert(0, os.path.join(env.REPO, "web/htdocs/python"))
    _dir = tempfile.mkdtemp(prefix="editor")
    os.symlink(os.path.join(env.REPO, "web/htdocs/definitions"), _dir + "/definitions")
    os.symlink(os.path.join(env.REPO, "content/lib/pyswitch"), _dir + "/pyswitch")
    me = os.getpid()

    def clean():
        if os.getpid() == me:
            for f in ("definitions", "pyswitch"):
                os.unlink(os.path.join(_dir, f))
            os.rmdir(_dir)
    atexit.register(clean)
    os.chdir(_dir)
    sys.dont_write_bytecode = True
    try:
        import parser.PySwitchParser  # noqa
    except ImportError as e:
        if "libcst" in str(e):
            raise
        raise Violation("the editor's parser cannot be loaded: %r" % (e,))


class JsData:
    """Plain data passed from JavaScript"""
    def __init__(self, d):
        self.d = d

    def to_py(self):
        return json.loads(json.dumps(self.d))


def conv(a):
    return JsData(a) if isinstance(a, (list, dict)) else a


_hardware = {}


def hardware(code):
    """The list of inputs of a board needs the hardware modules of the emulator: own process"""
    if code not in _hardware:
        h = env.REPO
        pre = "import sys,types; js=types.ModuleType('js'); js.document=types.SimpleNamespace(getElementById=lambda i: None); js.externalRefs=types.SimpleNamespace(); sys.modules['js']=js; sys.path.insert(0,%r); sys.path.append(%r)\n" % (h + "/web/htdocs/python", h + "/content/lib")
        tree = ast.parse(textwrap.dedent(code))
        tree.body[-1] = ast.Expr(ast.Call(ast.Name("print", ast.Load()), [tree.body[-1].value], []))
        p = subprocess.run([sys.executable, "-B", "-c", pre + ast.unparse(ast.fix_missing_locations(tree))], capture_output=True, text=True, timeout=60)
        if p.returncode != 0:
            raise RuntimeError(p.stderr[-1500:])
        _hardware[code] = p.stdout.strip()
    return _hardware[code]


def answer(msg):
    try:
        if "code" in msg and "PySwitchHardware" in msg["code"]:
            r = hardware(msg["code"])
        elif "code" in msg:
            tree = ast.parse(textwrap.dedent(msg["code"]))
            last = ast.Expression(tree.body.pop().value)
            ns = {"__name__": "editor"}
            exec(compile(tree, "<editor>", "exec"), ns)
            r = eval(compile(last, "<editor>", "eval"), ns)
        else:
            r = getattr(_handles[msg["handle"]], msg["method"])(*[conv(a) for a in msg["args"]])
    except Exception as e:
        return {"error": "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_exception(e))[-1200:])}
    if r is None or isinstance(r, (str, int, float, bool)):
        return {"value": r}
    if isinstance(r, dict):
        return {"dict": r}
    h = len(_handles) + 1
    _handles[h] = r
    return {"handle": h, "attrs": {"hw_import_path": getattr(r, "hw_import_path", None)}}


def stop():
    global _proc
    if _proc is not None:
        try:
            _proc.stdin.close()
            _proc.wait(5)
        except Exception:
            _proc.kill()
        _proc = None


def proc():
    global _proc
    if _proc is None or _proc.poll() is not None:
        js = os.path.join(os.path.dirname(os.path.abspath(__file__)), "editor.js")
        _proc = subprocess.Popen(["node", js, os.path.join(env.REPO, "web", "htdocs"), env.REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, bufsize=1)
        atexit.register(stop)
    return _proc


class Editor:
    """One configuration opened in the editor."""
    n = 0

    def __init__(self, inputs, display):
        prepare()
        Editor.n += 1
        self.id = Editor.n
        self.warnings = []
        self.call("new", inputs=inputs, display=display)

    def call(self, op, **k):
        p = proc()
        k.update(op=op, id=self.id)
        line = json.dumps(k)
        while True:
            try:
                p.stdin.write(line + "\n")
                p.stdin.flush()
                r = p.stdout.readline()
            except BrokenPipeError:
                r = ""
            if not r:
                err = p.stderr.read()
                stop()
                raise Violation("the web application's model cannot be loaded: %s" % err[-1500:])
            r = json.loads(r)
            if "py" in r:
                line = json.dumps(answer(r["py"]))
                continue
            if "fail" in r:
                raise EditorError("%s: %s" % (op, r["fail"]))
            self.warnings += r.get("warnings", [])
            return r["done"]

    def code(self):
        return self.call("code")

    def close(self):
        self.call("drop")
        _handles.clear()


class PyEditor:
    """Only the Python parser"""
    def __init__(self, inputs, display, hw="pyswitch.hardware.devices.pa_midicaptain_10"):
        prepare()
        from parser.PySwitchParser import PySwitchParser
        clients = sorted(d for d in os.listdir(os.path.join(env.REPO, "content/lib/pyswitch/clients")) if d in ("kemper", "boomerang", "local"))
        self.p = PySwitchParser(hw, json.dumps(clients))
        self.p.from_source(inputs, display)
