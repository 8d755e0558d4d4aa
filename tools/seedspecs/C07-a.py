PROPERTY = "C07"
NEEDS = "a preview repeated with the same text (value at its limit) shortly before the first one times out"
BREAKS = "the stay time is not restarted by a preview which shows the same text again, so it disappears too early"
EDITS = [("content/lib/pyswitch/controller/preview.py", """        self.__stay = stay

""", """        self.__stay = stay
        changed = text != self.label.override_text

"""), ("content/lib/pyswitch/controller/preview.py", """                self.__period = PeriodCounter(timeout_millis)
            else:
                self.__period.interval = timeout_millis                

            self.__period.reset()
""", """                self.__period = PeriodCounter(timeout_millis)
            else:
                self.__period.interval = timeout_millis                

            if changed:
                self.__period.reset()
""")]
DEMO = """
W = env.World()
VP = W.get("pyswitch.controller.preview:ValuePreview")
L = rig.label(W, text="orig")
R = rig.Rig(W, labels=[L])
vp = VP.get(L)
vp.preview("100%", timeout_millis=1000)
R.clock.advance(900); vp.update()
vp.preview("100%", timeout_millis=1000)
R.clock.advance(500); vp.update()
assert L.text == "100%", L.text
R.clock.advance(600); vp.update()
assert L.text == "orig", L.text
"""
