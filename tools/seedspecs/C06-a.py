PROPERTY = "C06"
NEEDS = "one button accepting the preselections of two encoders, both turned before it is pushed"
BREAKS = "only the first encoder's preselection is accepted"
EDITS = [("content/lib/pyswitch/clients/local/actions/encoder_button.py", "                encoder.accept()", "                encoder.accept()\n                break")]
DEMO = """
W = env.World()
M = W.get("pyswitch.controller.client:ClientParameterMapping")
CC = W.get("adafruit_midi.control_change:ControlChange")
E = W.get("pyswitch.controller.actions.EncoderAction:EncoderAction")
b = W.get("pyswitch.clients.local.actions.encoder_button:ENCODER_BUTTON")()
L = [rig.label(W), rig.label(W)]
s = rig.SwModel()
enc = [rig.EncModel(0), rig.EncModel(0)]
R = rig.Rig(W, labels=L, inputs=[{"assignment": {"model": s}, "actions": [b]}] + [{"assignment": {"model": e}, "actions": [
    E(mapping=M.get(name="x%d" % i, set=CC(10 + i, 0), response=CC(10 + i, 0)), accept_action=b, preview_display=L[i])]} for i, e in enumerate(enc)])
R.feed(rig.cc(10, 50)); R.feed(rig.cc(11, 60)); R.tick(300); R.tick(300)
for e in enc:
    e.p += 2
R.tick(20)
R.sent_msgs()
s.down = True; R.tick(20); s.down = False; R.tick(20)
x = sorted(m.hex()[:4] for m in R.sent_msgs())
print(x)
assert x == ["b00a", "b00b"], x
"""
