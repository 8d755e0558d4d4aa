PROPERTY = "L03"
NEEDS = "a short second press within the repeat interval of the first one, held longer than what remains of the interval"
BREAKS = "the repeat interval is not restarted by a push, so the first repeat follows the push too early"
EDITS = [("content/lib/pyswitch/clients/local/actions/param_change.py", """        self.__pushed = True
        if self.__repeat_period:
            self.__repeat_period.reset()""", """        if self.__repeat_period and self.__pushed:
            self.__repeat_period.reset()
        self.__pushed = True""")]
DEMO = """
W = env.World()
M = W.get("pyswitch.controller.client:ClientParameterMapping")
CC = W.get("adafruit_midi.control_change:ControlChange")
s = rig.SwModel()
a = W.get("pyswitch.clients.local.actions.param_change:PARAMETER_UP_DOWN")(mapping=M.get(name="x", set=CC(10, 0), response=CC(10, 0)), offset=1, repeat_interval_millis=1000)
R = rig.Rig(W, inputs=[{"assignment": {"model": s, "pixels": (0,)}, "actions": [a]}], ui=False)
R.feed(rig.cc(10, 5)); R.tick(300)
for _ in range(20):
    R.tick(200)
s.down = True; R.tick(20)
for _ in range(3):
    R.tick(200)
s.down = False; R.tick(20)
x = [m.hex() for m in R.sent_msgs()]
print(x)
assert x == ["b00a06"], x
"""
