PROPERTY = "M04"
NEEDS = "a device that stops answering while a parameter is asked for again and again (several consumers or periodic updates)"
BREAKS = "every further consumer prolongs the request, so its loss is never reported and the display keeps the old state"
EDITS = [("content/lib/pyswitch/controller/client.py", """            # Existing request: Add listener
            if listener:
                req.add_listener(listener)
""", """            # Existing request: Add listener
            if listener:
                req.add_listener(listener)

            if req.lifetime:
                req.lifetime.reset()
""")]
DEMO = """
W = env.World()
Callback = W.get("pyswitch.controller.callbacks:Callback")
m = W.imp("pyswitch.clients.kemper").KemperMappings.EFFECT_STATE(6)
lost = []
class L:
    def parameter_changed(self, m): pass
    def request_terminated(self, m): lost.append(m)
R = rig.Rig(W, ui=False)
cb = Callback([m])
cb.init(R.c, L())
R.run(8000, 20)
assert lost
"""
