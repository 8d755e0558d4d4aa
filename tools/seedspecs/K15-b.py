PROPERTY = "K15"
NEEDS = "a bank select switch pressed, then pressed again while the device is unreachable and its rig unknown"
BREAKS = "the release of a push which did nothing sends the release of the rig selected by an earlier push again"
EDITS = [("content/lib/pyswitch/clients/kemper/actions/bank_select.py", "        self.__appl.client.set(self.__sent_rig_mapping, 0)\n        self.__sent_rig_mapping = None", "        self.__appl.client.set(self.__sent_rig_mapping, 0)")]
DEMO = """
from kit import kdev
W = env.World()
km = W.imp("pyswitch.clients.kemper")
s = rig.SwModel()
a = W.get("pyswitch.clients.kemper.actions.bank_select:BANK_SELECT")(bank=3)
R = rig.Rig(W, inputs=[{"assignment": {"model": s, "pixels": (0,)}, "actions": [a]}], protocol=km.KemperBidirectionalProtocol(30))
dev = kdev.Device(W, 3, R.inport, R.port, rig=7)
def run(ms):
    for _ in range(ms // 20):
        R.clock.advance(20); dev.update(); R.c.tick()
def press():
    n = len(R.port.out)
    s.down = True; run(100); s.down = False; run(100)
    return [m.hex() for _, b in R.port.out[n:] for m in rig.parse_stream(b) if m[0] == 0xb0]
run(2000)
x = press()
assert x == ["b02f02", "b03401", "b03400"], x
run(1000)
dev.link = False
run(9000)
x = press()
print(x)
assert x == [], x
"""
