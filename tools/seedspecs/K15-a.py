PROPERTY = "K15"
NEEDS = "two effect actions sharing a label on different pages, and a change of pages back and forth while the effect type stays the same"
BREAKS = "an effect action which is reached again keeps the name and color of the effect shown by the other page"
EDITS = [("content/lib/pyswitch/controller/callbacks/effect_enable.py", "        super().reset()\n        \n        self.__current_kpp_type = None", "        super().reset()\n")]
DEMO = """
from kit import kdev
W = env.World()
km = W.imp("pyswitch.clients.kemper")
P = W.get("pyswitch.clients.local.actions.pager:PagerAction")
p = P(pages=[{"id": 1, "color": (1, 2, 3)}, {"id": 2, "color": (9, 9, 9)}])
E = W.get("pyswitch.clients.kemper.actions.effect_state:EFFECT_STATE")
L = rig.label(W)
acts = [E(slot_id=1, mode=20, display=L, id=1, enable_callback=p.enable_callback), E(slot_id=2, mode=20, display=L, id=2, enable_callback=p.enable_callback)]
s = [rig.SwModel(), rig.SwModel()]
R = rig.Rig(W, inputs=[{"assignment": {"model": s[0]}, "actions": [p]}, {"assignment": {"model": s[1], "pixels": (0,)}, "actions": acts}], labels=[L])
dev = kdev.Device(W, 3, R.inport, R.port, rig=5)
dev.set((0x33, 0), 1); dev.set((0x34, 0), 121); dev.set((0x33, 3), 1); dev.set((0x34, 3), 1)
def run(ms):
    for _ in range(ms // 20):
        R.clock.advance(20); dev.update(); R.c.tick()
run(2000)
first = (L.text, L.back_color)
for i in range(2):
    s[0].down = True; run(40); s[0].down = False; run(2000)
    if i == 0:
        assert (L.text, L.back_color) != first
print(first, (L.text, L.back_color))
assert (L.text, L.back_color) == first
"""
