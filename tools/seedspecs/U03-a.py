PROPERTY = "U03"
NEEDS = "a split container inside a split container of the same direction which is resized after it has got its children"
BREAKS = "nested containers of the same direction do not pass a change of their bounds on to their children"
EDITS = [("content/lib/pyswitch/ui/DisplaySplitContainer.py", "            if isinstance(c, DisplaySplitContainer):", "            if isinstance(c, DisplaySplitContainer) and c.direction != self.direction:")]
DEMO = """
W = env.World()
ui = W.imp("pyswitch.ui.ui")
SC = W.get("pyswitch.ui.DisplaySplitContainer:DisplaySplitContainer")
B = ui.DisplayBounds
kids = [ui.DisplayElement(), ui.DisplayElement()]
inner = SC(bounds=B(0, 0, 10, 10), direction=SC.HORIZONTAL, children=kids)
outer = SC(bounds=B(0, 0, 240, 40), direction=SC.HORIZONTAL, children=[inner, ui.DisplayElement()])
outer.update_bounds()
got = [(k.bounds.x, k.bounds.width) for k in kids]
print(got)
assert got == [(0, 60), (60, 60)], got
"""
