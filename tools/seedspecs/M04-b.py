PROPERTY = "M04"
NEEDS = "two parameters whose answers are lost in the same cleanup interval"
BREAKS = "only one lost request is reported per cleanup, the others wait for the following ones"
EDITS = [("content/lib/pyswitch/controller/client.py", """            if request.lifetime and request.lifetime.exceeded:
                request.terminate()
""", """            if request.lifetime and request.lifetime.exceeded:
                request.terminate()
                break
""")]
DEMO = """
W = env.World()
k = W.imp("pyswitch.clients.kemper").KemperMappings
lost = []
class L:
    def parameter_changed(self, m): pass
    def request_terminated(self, m): lost.append(m)
R = rig.Rig(W, ui=False)
for i in (0, 1, 2, 3, 6, 7):
    R.c.client.request(k.EFFECT_STATE(i), L())
R.run(3200, 20)
assert len(lost) == 6, len(lost)
"""
