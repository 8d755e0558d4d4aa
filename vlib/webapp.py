"""The web application running in node (vlib/webapp.js)."""
import atexit, json, os, subprocess
from . import env
from .runner import Violation

_proc = None


def _start():
    global _proc
    here = os.path.dirname(os.path.abspath(__file__))
    _proc = (os.getpid(), subprocess.Popen(["node", os.path.join(here, "webapp.js"), env.REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True))
    atexit.register(stop)


def stop():
    global _proc
    if _proc and _proc[0] == os.getpid():
        try:
            _proc[1].stdin.close()
            _proc[1].wait(5)
        except Exception:
            _proc[1].kill()
    _proc = None


def run(kind, **case):
    """Runs one scenario, returns what was recorded"""
    if _proc is None or _proc[0] != os.getpid():
        _start()
    p = _proc[1]
    p.stdin.write(json.dumps(dict(case, kind=kind)) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        stop()
        raise Violation("the web application ended the process")
    r = json.loads(line)
    if "error" in r:
        raise Violation("the web application failed: " + r["error"][:600])
    if "uncaught" in r:
        raise Violation("the web application failed outside of an operation: " + r["uncaught"][:400])
    return r
