PROPERTY = "U02"
NEEDS = "several screens (splashes) with updateable elements, shown one after another"
BREAKS = "after a change of screen, the elements of the first screen are updated instead of those shown"
EDITS = [("content/lib/pyswitch/ui/UiController.py", "        self.updateables = [i for i in splash_element.contents_flat() if isinstance(i, Updateable)]\n", "        self.updateables = self.updateables or [i for i in splash_element.contents_flat() if isinstance(i, Updateable)]\n")]
DEMO = """
W = env.World()
ui = W.imp("pyswitch.ui.ui")
Upd = W.get("pyswitch.misc:Updateable")
class E(ui.DisplayElement, Upd):
    n = 0
    def update(self):
        self.n += 1
B = ui.DisplayBounds(0, 0, 240, 240)
roots = [E(bounds=B), E(bounds=B)]
CB = W.get("pyswitch.controller.callbacks:Callback")
class S(CB):
    which = 0
    def init(self, appl, listener=None):
        CB.init(self, appl, listener)
        self.ui = listener
    def get_root(self):
        return roots[self.which]
cb = S()
R = rig.Rig(W, inputs=[], splash=cb)
R.tick(300); R.tick(300)
cb.which = 1
cb.ui.show()
before = [r.n for r in roots]
for _ in range(4):
    R.tick(300)
print(before, [r.n for r in roots])
assert roots[1].n > before[1] and roots[0].n == before[0]
"""
