PROPERTY = "U01"
NEEDS = "the background color of a label changed while a preview text is shown on it"
BREAKS = "a label showing a preview ignores changes of its background color, also after the preview has ended"
EDITS = [("content/lib/pyswitch/ui/elements.py", """        if self.__layout.back_color == color:
            return
""", """        if self.__layout.back_color == color or self.override_text:
            return
""")]
DEMO = """
W = env.World()
L = rig.label(W, text="orig", back=(50, 50, 50))
R = rig.Rig(W, labels=[L])
VP = W.get("pyswitch.controller.preview:ValuePreview")
vp = VP.get(L)
vp.preview("77%", timeout_millis=500)
L.back_color = (200, 10, 10)
R.clock.advance(900); vp.update(); R.tick(300)
print(L.back_color)
assert L.back_color == (200, 10, 10)
"""
