"""Labels: what is on screen against the last texts and colours set."""
from vlib import env, rig, hw
from vlib.runner import check, eq

ID = "U01"
RULE = ("A case is a screen of 1-6 labels with random layouts (text wrapping, stroke, scale, configured or automatic text colour, with and without background, single and multi colour) with plenty or little memory, and a history of texts "
        "(any type, long words, line breaks), background and text colours and override texts set before and after the screen is shown, repeated or changed. After each step the screen elements are compared. Signature = layouts and history.")
CASES = {"quick": 4000, "thorough": 80000}
FLOORS = {"checks": 25000, "texts": 3500, "wrapped": 6000, "contrast": 15000, "unchanged": 1500, "low_memory": 500, "before_init": 800, "multi": 800, "overrides": 500, "back_colors": 1500}
LEVEL_NOTE = "Exploration: text, wrapping, geometry, fill and text colour of every drawn element compared with a model after every step; writes to the screen elements counted for unchanged values."


def words(r):
    n = r.randint(0, 7)
    return r.choice([" ", " ", "\n"]).join("".join(r.choice("abcXYZ0-9äé#") for _ in range(r.choice([1, 3, 5, 9, 30]))) for _ in range(n))


def run_case(rng, rec, tier):
    W = env.World()
    r = rng
    el, ui = W.imp("pyswitch.ui.elements"), W.imp("pyswitch.ui.ui")
    col = lambda: r.choice([(0, 0, 0), (255, 255, 255), (255, 0, 0), (0, 255, 0), (0, 0, 255), (r.randrange(256), r.randrange(256), r.randrange(256))])
    back = lambda: tuple(col() for _ in range(r.choice([2, 3, 4]))) if r.random() < 0.07 else col()
    L = []
    for k in range(r.randint(1, 6)):
        class M:
            pass
        m = M()
        m.font = r.choice(["/fonts/H20.pcf", "/fonts/A12.pcf"])
        lay = {"font": m.font}
        m.width = m.color = m.back = None
        m.text, m.stroke, m.spacing, m.scale = "", 0, 1, 1
        if r.random() < 0.6:
            m.width = lay["maxTextWidth"] = r.choice([10, 25, 60, 220])
        if r.random() < 0.3:
            m.color = lay["textColor"] = col()
        if r.random() < 0.75:
            m.back = lay["backColor"] = back()
        if r.random() < 0.3:
            m.stroke = lay["stroke"] = r.choice([1, 2])
        if r.random() < 0.3:
            m.spacing = lay["lineSpacing"] = r.choice([0.8, 1.5])
        if r.random() < 0.6:
            m.text = lay["text"] = words(r)
        kw = {}
        if r.random() < 0.2:
            m.scale = kw["scale"] = r.choice([2, 3])
        m.bounds = (r.randrange(0, 100), r.randrange(0, 100), r.randrange(10, 120), r.randrange(10, 120))
        m.l = el.DisplayLabel(layout=lay, bounds=ui.DisplayBounds(*m.bounds), **kw)
        m.conf = m.color        # configured text colour
        m.loose = False         # text colour not determined by the property
        m.over = None
        L.append(m)
    W.hw.log = None
    low = r.random() < 0.2
    limit = r.choice([None, 5000, 40000])
    lim = limit or 15 * 1024
    W.mem.free = r.choice([0, lim - 1, lim // 2]) if low else r.choice([lim, lim + 1, 150 * 1024])
    R = rig.Rig(W, labels=[m.l for m in L], config={"memoryWarnLimitBytes": limit} if limit else {}, init=False)
    shown = [False]
    hist = []

    def screen():
        """The drawn elements of each label, in order: optional background, text"""
        els = rig.find_screen(R.display.root)
        i, out = 0, []
        for m in L:
            bg = None
            if m.back is not None:
                bg = els[i]
                i += 1
            out.append((bg, els[i]))
            i += 1
        eq(i, len(els), "number of elements on screen")
        return out

    def verify(why):
        if not shown[0]:
            return
        for m, (bg, tx) in zip(L, screen()):
            rec.n("checks")
            x, y, w, h = m.bounds
            eq(m.l.text, m.text, "%s: text of the label" % why)
            want = m.text
            wrap = want
            if want and m.width:
                wrap = "\n".join(hw.wrap_text_to_pixels(want, m.width, tx[2].font))
                rec.n("wrapped", int(wrap != want))
            check(isinstance(tx[2], hw.Label), "text element expected")
            eq(tx[2].text, wrap, "%s: text on screen (width %r)" % (why, m.width))
            eq("".join(tx[2].text.split()), "".join(want.split()), "characters on screen")
            eq((tx[0], tx[1], tuple(tx[2].anchored_position), tuple(tx[2].anchor_point), tx[2].scale, tx[2].line_spacing, tx[2].font.path), (x, y, (int(w / 2), int(h / 2)), (0.5, 0.5), m.scale, m.spacing, m.font), "text geometry")
            multi = m.back is not None and isinstance(m.back[0], tuple)
            c = tuple(tx[2].color)
            if bg:
                check(isinstance(bg[2], hw.Rect), "background expected")
                s = m.stroke
                eq((bg[0] + bg[2].x, bg[1] + bg[2].y, bg[2].width, bg[2].height), (x + s, y + s, w - 2 * s, h - 2 * s), "background geometry")
                if multi:
                    rec.n("multi")
                    eq(tuple(bg[2].fill), m.back[len(m.back) // 2], "%s: background on screen for the colors %r (the middle one is shown)" % (why, m.back))
                else:
                    eq(tuple(bg[2].fill), tuple(m.back), "%s: background on screen" % why)
                    eq(tuple(m.l.back_color), tuple(m.back), "%s: background of the label" % why)
                f = bg[2].fill
            else:
                f = (0, 0, 0)
            eq(tuple(m.l.text_color), c, "text colour of the label and on screen")
            if m.color is not None:
                eq(c, m.color, "%s: text colour" % why)
            elif not m.loose:
                rec.n("contrast")
                lum = 0.2126 * f[0] + 0.7152 * f[1] + 0.0722 * f[2]
                ok = [(255, 255, 255)] if lum < 130 else [(0, 0, 0)] if lum > 150 else [(255, 255, 255), (0, 0, 0)]
                check(c in ok, lambda: "%s: text colour %r on background %r" % (why, c, f))

    def writes():
        return [(len(tx[2].texts), len(tx[2].colors), len(bg[2].fills) if bg else 0) for bg, tx in screen()]

    def set_text(m, v):
        m.text = "Low Memory!" if low and shown[0] else str(v)

    def step():
        i = r.randrange(len(L))
        m = L[i]
        k = r.random()
        same = r.random() < 0.3
        before = writes() if shown[0] else None
        unchanged = False
        if k < 0.5:
            v = r.choice([words(r), words(r), r.randrange(-100, 99999), 1.5, None, True, "", 0])
            if same:
                v = m.l.text
                if r.random() < 0.2:
                    v = r.choice([v + " ", v.strip(), " " + v, v.upper(), v + v[-1:]])
            hist.append(("text", i, v))
            rec.n("texts")
            rec.n("low_memory", int(low and shown[0]))
            old = m.text
            set_text(m, v)
            unchanged = old == m.text
            m.l.text = v
        elif k < 0.8:
            if m.back is None:
                return
            v = m.back if same else back()
            hist.append(("back", i, v))
            rec.n("back_colors")
            unchanged = v == m.back
            if not unchanged:
                m.loose = m.conf is None and (m.loose or m.color is not None) or (m.loose or m.color != m.conf)
                m.color = None if m.loose else m.conf
            m.back = v
            m.l.back_color = v
        elif k < 0.9:
            v = r.choice([None, col()])
            hist.append(("color", i, v))
            m.color, m.loose = v, False
            m.l.text_color = v
        else:
            if m.over:
                m.over = m.l.override_text = None
                m.l.update_label()
                hist.append(("restore", i))
            else:
                m.over = m.l.override_text = "Over %d" % r.randrange(99)
                rec.n("overrides")
                hist.append(("override", i, m.over))
                set_text(m, m.over)
                m.l.update_label()
        if before:
            after = writes()
            if unchanged:
                rec.n("unchanged")
                eq(after, before, "writes to the screen when setting an unchanged value")
            for j in range(len(L)):
                if j != i:
                    eq(after[j], before[j], "writes to the other labels")
        rec.state((hist[-1][0], unchanged, low))

    for _ in range(r.choice([0, 0, 3, 6])):
        rec.n("before_init")
        step()
    R.c.init()
    shown[0] = True
    verify("when shown")
    for _ in range(r.randint(3, 20)):
        step()
        if r.random() < 0.2:
            R.run(220)
        verify("after %r" % (hist[-1:],))
        rec.ev(*hist[-1:])
    rec.sig((repr([(m.width, m.conf, m.stroke) for m in L]), repr(hist), low))
