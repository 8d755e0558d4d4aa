"""The meaning of a configuration: inputs.py and display.py are executed with stand-ins for everything imported, which only record what is
created and from what. Two configurations mean the same if the created structures are equal, including which objects are shared."""
import ast, builtins, os, types
from . import env


class Sym:
    """Something imported: module and name (and attributes of it)"""
    def __init__(self, mod, name):
        self.__dict__["_mod"], self.__dict__["_name"] = mod, name

    def __getattribute__(self, n):
        if n in ("_mod", "_name", "__dict__", "__class__", "__mro_entries__", "__call__", "__repr__"):
            return object.__getattribute__(self, n)
        if n.startswith("__") and n not in ("__init__", "__name__"):
            raise AttributeError(n)
        return Sym(self._mod, self._name + "." + n)

    def __call__(self, *a, **k):
        return Node(self, a, k)

    def __mro_entries__(self, bases):
        return (RecBase,)

    def __repr__(self):
        return "%s:%s" % (self._mod, self._name)


class Node:
    """Result of a call"""
    def __init__(self, f, a, k):
        self.__dict__["_f"], self.__dict__["_a"], self.__dict__["_k"] = f, a, k

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Attr(self, n)

    def __call__(self, *a, **k):
        return Node(self, a, k)


class Attr(Node):
    def __init__(self, o, n):
        self.__dict__["_o"], self.__dict__["_n"] = o, n


class Op(Node):
    def __init__(self, op, *a):
        self.__dict__["_op"], self.__dict__["_a"] = op, a


for _op in "add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod and rand or ror lshift rshift neg pos invert getitem lt le gt ge".split():
    def _mk(_op=_op):
        def f(self, *a):
            return Op(_op, self, *a)
        return f
    for _c in (Sym, Node):
        setattr(_c, "__%s__" % _op, _mk())


class RecBase:
    """Base of classes defined in a configuration which derive from imported ones"""
    def __init__(self, *a, **k):
        self._base_args = (a, k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def method(*a, **k):
            self.__dict__.setdefault("_base_calls", []).append((n, a, tuple(sorted(k.items()))))
            return Op("method", n, *a)
        return method


_star = {}


def star_names(mod):
    """Public names of a real firmware module"""
    if mod not in _star:
        W = env.World()
        m = W.imp(mod)
        _star[mod] = sorted(n for n in vars(m) if not n.startswith("_"))
    return _star[mod]


_defs = {}


def origin(mod, name):
    """Module and name where a name of a firmware module is really defined"""
    first = name.split(".")[0]
    for _ in range(8):
        if mod not in _defs:
            f = os.path.join(env.REPO, "content/lib", mod.replace(".", "/"))
            f = f + "/__init__.py" if os.path.isdir(f) else f + ".py"
            d = {}
            if os.path.exists(f):
                for st in ast.parse(open(f).read()).body:
                    if isinstance(st, ast.ImportFrom):
                        base = mod.split(".")
                        base = ".".join(base[:len(base) - st.level] if st.level else [])
                        src = (base + "." if base and st.module else base) + (st.module or "")
                        for a in st.names:
                            d[a.asname or a.name] = (src, a.name)
            _defs[mod] = d
        if first not in _defs[mod]:
            break
        rest = name.split(".")[1:]
        mod, first = _defs[mod][first]
        name = ".".join([first] + rest)
    return mod, name


class Meaning(Exception):
    pass


def run(inputs, display):
    """Executes both files; returns the namespaces."""
    spaces = {}

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name == "display":
            m = types.ModuleType("display")
            m.__dict__.update({k: v for k, v in spaces["display"].items() if not k.startswith("__")})
            return m
        m = types.ModuleType(name)
        if fromlist:
            for n in fromlist:
                if n == "*":
                    m.__all__ = star_names(name)
                    for x in m.__all__:
                        setattr(m, x, Sym(name, x))
                else:
                    setattr(m, n, Sym(name, n))
            return m
        root = Sym(name.split(".")[0], "")
        return root
    bi = dict(vars(builtins))
    bi["__import__"] = imp
    for key, code in (("display", display), ("inputs", inputs)):
        ns = {"__builtins__": bi, "__name__": key}
        try:
            exec(compile(code, key + ".py", "exec"), ns)
        except Exception as e:
            raise Meaning("%s.py cannot be loaded: %s: %s" % (key, type(e).__name__, e)) from None
        spaces[key] = ns
    return spaces["inputs"], spaces["display"]


def canon(roots):
    """Canonical form of an object graph, with numbers for shared objects"""
    seen, keep = {}, []

    def go(v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, complex)) or v is Ellipsis:
            return (type(v).__name__, repr(v))
        if isinstance(v, Sym):
            return ("sym",) + origin(v._mod, v._name)
        if isinstance(v, tuple):
            return ("tuple",) + tuple(go(x) for x in v)
        if isinstance(v, (set, frozenset)):
            return ("set",) + tuple(sorted(map(repr, (go(x) for x in v))))
        if isinstance(v, type) and v.__module__ == "builtins":
            return ("builtin", v.__name__)
        if isinstance(v, types.BuiltinFunctionType):
            return ("builtin", v.__name__)
        if id(v) in seen:
            return ("ref", seen[id(v)])
        seen[id(v)] = len(seen)
        keep.append(v)
        n = seen[id(v)]
        if isinstance(v, list):
            return ("list", n) + tuple(go(x) for x in v)
        if isinstance(v, dict):
            return ("dict", n) + tuple((go(k), go(x)) for k, x in sorted(v.items(), key=lambda kv: repr(kv[0])))
        if isinstance(v, Attr):
            return ("attr", n, go(v._o), v._n)
        if isinstance(v, Op):
            return ("op", v._op) + tuple(go(x) for x in v._a)
        if isinstance(v, Node):
            a, k = list(v._a), dict(v._k)
            if isinstance(v._f, Sym) and v._f._name == "DisplayBounds":
                for name, x in zip(("x", "y", "w", "h"), a):
                    k[name] = x
                a = []
            return ("call", n, go(v._f), tuple(go(x) for x in a), tuple((x, go(k[x])) for x in sorted(k)))
        if isinstance(v, types.FunctionType):
            return ("func", n, v.__name__, code(v.__code__), go(v.__defaults__), tuple(go(c.cell_contents) for c in v.__closure__ or ()))
        if isinstance(v, type):
            return ("class", v.__name__, tuple(go(b) for b in v.__bases__ if b is not object), tuple((k, go(x)) for k, x in sorted(vars(v).items()) if not (k.startswith("__") and k not in ("__init__", "__call__"))))
        if isinstance(v, types.ModuleType):
            return ("module", v.__name__)
        if isinstance(v, (property, staticmethod, classmethod)):
            return ("descr", type(v).__name__)
        return ("object", n, go(type(v)), tuple((k, go(x)) for k, x in sorted(vars(v).items())) if hasattr(v, "__dict__") else repr(v))

    def code(c):
        return (c.co_code.hex(), tuple(code(x) if isinstance(x, types.CodeType) else (type(x).__name__, repr(x)) for x in c.co_consts), c.co_names, c.co_varnames)
    return [go(r) for r in roots]


def meaning(inputs, display, names=None):
    """Canonical meaning of the definitions which matter: Inputs, Splashes and all names assigned, functions and classes of both files."""
    i, d = run(inputs, display)
    out, roots, keys = {}, [], []
    for ns, key in ((i, "inputs"), (d, "display")):
        for k in sorted(ns):
            if k.startswith("__") or isinstance(ns[k], (Sym, types.ModuleType)):
                continue
            keys.append((key, k))
            roots.append(ns[k])
    # Inputs and Splashes first, so that the numbers of shared objects do not depend on names
    order = sorted(range(len(keys)), key=lambda x: (keys[x] != ("inputs", "Inputs"), keys[x] != ("display", "Splashes"), keys[x]))
    c = canon([roots[x] for x in order])
    for x, v in zip(order, c):
        out[keys[x]] = v
    return out


def imports(code):
    """(module, name, bound name, line) of all module level imports; name None for whole modules"""
    out = []
    for st in ast.parse(code).body:
        if isinstance(st, ast.ImportFrom):
            for a in st.names:
                out.append((st.module, a.name, a.asname or a.name, st.lineno))
        elif isinstance(st, ast.Import):
            for a in st.names:
                out.append((a.name, None, a.asname or a.name.split(".")[0], st.lineno))
    return out


def used_names(code):
    return {n.id for n in ast.walk(ast.parse(code)) if isinstance(n, ast.Name)}
