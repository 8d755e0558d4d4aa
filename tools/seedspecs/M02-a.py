PROPERTY = "M02"
NEEDS = "a pedal moved while several MIDI messages are waiting"
BREAKS = "pedals and encoders are only polled once per receive round, not before every message"
EDITS = [("content/lib/pyswitch/controller/controller.py", """            for input in self.inputs:
                input.process()
            
            if""", """            for input in self.inputs:
                if cnt == 0 or isinstance(input, SwitchController):
                    input.process()
            
            if""")]
DEMO = """
W = env.World()
AA = W.get("pyswitch.controller.actions.AnalogAction:AnalogAction")
Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
CC = W.get("adafruit_midi.control_change:ControlChange")
pot = rig.PotModel(0)
R = rig.Rig(W, ui=False, inputs=[{"assignment": {"model": pot}, "actions": [AA(mapping=Mapping.get(name="x", set=CC(7, 0)), auto_calibrate=False)]}])
R.tick(10)
p = pot.polls
for i in range(8): R.feed(rig.cc(9, i))
R.tick(10)
assert pot.polls - p >= 8, pot.polls - p
"""
