"""Layout helpers and split containers: rectangle algebra oracle over random layout programs, down to what is drawn."""
from vlib import env, rig, hw
from vlib.runner import check, eq

ID = "U03"
RULE = ("A case is a random layout program: 5-40 removals, copies and translations on screen areas (integer and fractional amounts, nested), then a random tree of split containers (both directions, empty entries, children given at "
        "construction or added in any order, extended after being laid out, bounds changed), optionally shown on a screen. Signature = the program.")
CASES = {"quick": 6000, "thorough": 100000}
FLOORS = {"removals": 8000, "copies": 4000, "fractional": 1000, "containers": 1500, "nested": 500, "late_adds": 800, "children": 4000, "drawn": 1000, "at_construction": 500, "none_children": 500}
LEVEL_NOTE = "Exploration: every area is compared with exact rectangle algebra; drawn backgrounds are compared with the areas of their containers."


def t(b):
    return (b.x, b.y, b.width, b.height)


def tiles(before, strip, rest):
    """strip and rest are disjoint, adjacent and cover exactly 'before'"""
    bx, by, bw, bh = before
    if strip[2] * strip[3] + rest[2] * rest[3] != bw * bh:
        return False
    for a in (strip, rest):
        if a[0] < bx or a[1] < by or a[0] + a[2] > bx + bw or a[1] + a[3] > by + bh:
            return False
    ox = min(strip[0] + strip[2], rest[0] + rest[2]) - max(strip[0], rest[0])
    oy = min(strip[1] + strip[3], rest[1] + rest[3]) - max(strip[1], rest[1])
    return ox <= 0 or oy <= 0


def run_case(rng, rec, tier):
    W = env.World()
    r = rng
    ui, lay = W.imp("pyswitch.ui.ui"), W.imp("pyswitch.ui.layout")
    SC = W.get("pyswitch.ui.DisplaySplitContainer:DisplaySplitContainer")
    B = ui.DisplayBounds
    areas = [(B(*v), v) for v in [(r.randrange(-20, 300), r.randrange(-20, 300), r.choice([0, 1, 7, 240, r.randrange(600)]), r.choice([0, 1, 7, 240, r.randrange(600)])) for _ in range(2)]]
    prog = []

    def all_ok(why):
        for b, v in areas:
            eq(t(b), v, "area after %r" % (why,))

    for step in range(r.randint(5, 40)):
        i = r.randrange(len(areas))
        b, v = areas[i]
        side = r.choice(["top", "bottom", "left", "right"])
        size = v[3] if side in ("top", "bottom") else v[2]
        a = r.choice([0, size, r.randint(0, size), r.randint(0, size)])
        arg = a
        if r.random() < 0.2 and a < size:
            arg = a + r.choice([0.25, 0.5, 0.999])
            rec.n("fractional")
        x, y, w, h = v
        strip = {"top": (x, y, w, a), "bottom": (x, y + h - a, w, a), "left": (x, y, a, h), "right": (x + w - a, y, a, h)}[side]
        rest = {"top": (x, y + a, w, h - a), "bottom": (x, y, w, h - a), "left": (x + a, y, w - a, h), "right": (x, y, w - a, h)}[side]
        k = r.random()
        if k < 0.5:
            s = getattr(lay, "remove_from_" + side)(b, arg)
            rec.n("removals")
            prog.append(("remove", side, arg))
            eq(t(s), strip, "strip of %s of %r removed from %s" % (arg, v, side))
            check(tiles(v, t(s), t(b)), lambda: "strip %r and rest %r do not tile %r" % (t(s), t(b), v))
            areas[i] = (b, rest)
            if len(areas) < 12:
                areas.append((s, strip))
        elif k < 0.7:
            s = getattr(lay, side)(b, arg)
            rec.n("copies")
            prog.append((side, arg))
            eq(t(s), strip, "%s part of %r" % (side, v))
            if len(areas) < 12:
                areas.append((s, strip))
        elif k < 0.78:
            dx, dy = r.randrange(-50, 50), r.randrange(-50, 50)
            s = lay.translated(b, dx, dy)
            rec.n("copies")
            prog.append(("translated", dx, dy))
            eq(t(s), (x + dx, y + dy, w, h), "translated area")
            areas.append((s, t(s)))
        elif k < 0.86:
            dx, dy = r.randrange(-50, 50), r.randrange(-50, 50)
            lay.translate(b, dx, dy)
            prog.append(("translate", dx, dy))
            areas[i] = (b, (x + dx, y + dy, w, h))
        elif k < 0.93:
            s = lay.with_position(b, 5, -6)
            rec.n("copies")
            prog.append("pos")
            eq(t(s), (5, -6, w, h), "area at a position")
            areas.append((s, t(s)))
        else:
            s = b.clone()
            rec.n("copies")
            prog.append("clone")
            check(s == b and s is not b, "copy of an area")
            areas.append((s, v))
        areas = areas[-14:]
        all_ok(prog[-1])
        rec.state((prog[-1][0], a == 0, a == size))

    # ---- split containers
    el = W.imp("pyswitch.ui.elements")
    draw = r.random() < 0.4
    conts, leaves = [], []

    def leaf():
        if draw:
            e = el.DisplayLabel(layout={"font": "/f", "backColor": (r.randrange(1, 255), 1, 1), "text": "x"})
        else:
            e = ui.DisplayElement()
        leaves.append(e)
        return e

    spare = []

    def container(depth, bounds=None):
        kids = []
        for _ in range(r.choice([0, 1, 2, 3, 4]) if depth else r.randint(1, 4)):
            q = r.random()
            if q < 0.12:
                rec.n("none_children")
                kids.append(None)
            elif q < 0.4 and depth < 3:
                rec.n("nested")
                kids.append(container(depth + 1))
            else:
                kids.append(leaf())
        kw = {"direction": r.choice([SC.HORIZONTAL, SC.VERTICAL])}
        if bounds:
            kw["bounds"] = B(*bounds)
        if r.random() < 0.4:
            rec.n("at_construction")
            c = SC(children=list(kids), **kw)
        else:
            c = SC(**kw)
            if r.random() < 0.5:
                for e in kids:
                    c.add(e)
            else:
                spare.append((c, list(kids)))      # added after this container has been placed
        conts.append(c)
        rec.n("containers")
        return c

    bounds = (r.randrange(0, 30), r.randrange(0, 30), r.randrange(60, 400), r.randrange(60, 400))
    root = container(0, bounds)

    def verify(why):
        def rec_(c):
            kids = [k for k in (c.children or []) if k is not None]
            if not kids:
                return
            x, y, w, h = t(c.bounds)
            hor = c.direction == SC.HORIZONTAL
            n = len(kids)
            size = (w if hor else h) // n
            for i, k in enumerate(kids):
                rec.n("children")
                eq(t(k.bounds), (x + i * size, y, size, h) if hor else (x, y + i * size, w, size), "%s: child %d of %d of a %s container at %r" % (why, i, n, "horizontal" if hor else "vertical", (x, y, w, h)))
                if isinstance(k, SC):
                    rec_(k)
        eq(t(root.bounds), bounds, "bounds of the outer container")
        rec_(root)

    verify("after construction")
    r.shuffle(spare)
    for c, kids in spare:
        for e in kids:
            c.add(e)
            rec.n("late_adds")
            verify("after adding")
    for _ in range(r.choice([0, 1, 3])):
        c = r.choice(conts)
        c.add(container(2) if r.random() < 0.3 else leaf())
        for c2, kids in spare:
            if not c2.children:
                for e in kids:
                    c2.add(e)
        rec.n("late_adds")
        verify("after extending")
    if r.random() < 0.3:
        bounds = tuple(v + 3 for v in bounds)
        root.bounds = B(*bounds)
        root.update_bounds()
        verify("after moving the container")

    def reach(c):
        return [k for x in (c.children or []) if x is not None for k in (reach(x) if isinstance(x, SC) else [x])]
    vis = reach(root)
    if draw and vis and all(min(t(k.bounds)[2:]) > 0 for k in vis):
        top = ui.DisplayElement(bounds=B(0, 0, 500, 500), children=[root])
        R = rig.Rig(W, labels=[], splash=W.get("pyswitch.clients.local.callbacks.splashes:SplashesCallback")(top))
        R.run(20)
        rects = [(x + e.x, y + e.y, e.width, e.height) for x, y, e in rig.find_screen(R.display.root) if isinstance(e, hw.Rect)]
        rec.n("drawn", len(rects))
        eq(rects, [t(k.bounds) for k in vis], "backgrounds drawn")
    rec.ev("containers", len(conts), len(leaves))
    rec.sig((repr(prog), len(conts), len(leaves), bounds))
