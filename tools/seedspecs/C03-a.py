PROPERTY = "C03"
NEEDS = "a colour change while the brightness stays at a value exactly representable as a 32 bit float (1, 0.5, ...)"
BREAKS = "LEDs whose brightness is unchanged are not written, so a colour change at constant brightness stays invisible."
EDITS = [("content/lib/pyswitch/controller/inputs.py",
"""        for i in range(len(self.pixels)):
            pixel = self.pixels[i]
            self""",
"""        for i in range(len(self.pixels)):
            pixel = self.pixels[i]
            if brightnesses[i] == self.__brightnesses[i] and brightnesses[i] == 1:
                continue

            self""")]
DEMO = '''
W = env.World()
A = W.imp("pyswitch.controller.actions")
Callback = W.get("pyswitch.controller.callbacks:Callback")
class P(Callback):
    c = (255, 0, 0)
    def update_displays(self):
        self.action.switch_color = self.c
        self.action.switch_brightness = 1
p = P()
a = A.Action({"callback": p, "useSwitchLeds": True})
R = rig.Rig(W, inputs=[{"assignment": {"model": rig.SwModel(), "pixels": (0, 1, 2)}, "actions": [a]}], ui=False)
R.tick(300)
p.c = (0, 255, 0)
a.update_displays()
print(R.leds)
sys.exit(0 if R.leds == [(0, 255, 0)] * 3 else 1)
'''
