PROPERTY = "C02"
NEEDS = "latch-or-momentary button held longer than the hold time with the device reporting a changed state in the middle of the press"
BREAKS = "Device feedback during a press restarts the hold time, so the long press is taken for a short one and not undone at release."
EDITS = [("content/lib/pyswitch/controller/actions/__init__.py",
"""    def feedback_state(self, state):
        self.__state = state
""",
"""    def feedback_state(self, state):
        if state != self.__state:
            self.__period.reset()

        self.__state = state
""")]
DEMO = '''
W = env.World()
PBA = W.get("pyswitch.controller.actions:PushButtonAction")
BPC = W.get("pyswitch.controller.callbacks:BinaryParameterCallback")
Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
CC = W.get("adafruit_midi.control_change:ControlChange")
m = rig.SwModel()
a = PBA({"callback": BPC(mapping=Mapping.get(name="x", set=CC(10, 0), response=CC(10, 0)), value_enable=127, value_disable=0), "mode": PBA.HOLD_MOMENTARY, "holdTimeMillis": 500})
R = rig.Rig(W, inputs=[{"assignment": {"model": m}, "actions": [a]}], ui=False)
R.tick(10)
m.down = True; R.tick(10); R.tick(400)
R.feed(rig.cc(10, 0)); R.tick(10)
R.tick(300)
m.down = False; R.tick(10)
s = [x.hex() for x in R.sent_msgs()]
print(s)
sys.exit(0 if s == ["b00a7f", "b00a7f"] else 1)
'''
