PROPERTY = "M05"
NEEDS = "a source parameter that changes to an empty text (or to zero)"
BREAKS = "dependent parameters are not refreshed when their source changes to an empty value"
EDITS = [("content/lib/pyswitch/controller/client.py", """            if mapping.value != self.__last_value:
""", """            if mapping.value and mapping.value != self.__last_value:
""")]
DEMO = """
W = env.World()
k = W.imp("pyswitch.clients.kemper").KemperMappings
got = []
class L:
    def parameter_changed(self, m): got.append(m.value)
    def request_terminated(self, m): pass
R = rig.Rig(W, ui=False)
l = L()
def rnd(date, name):
    R.c.client.request(k.RIG_NAME(), l)
    R.feed(rig.sysex(b"\\x00\\x20\\x33", bytes([0, 0, 3, 0, 0, 3]) + date + b"\\0")); R.settle()
    R.feed(rig.sysex(b"\\x00\\x20\\x33", bytes([0, 0, 3, 0, 0, 1]) + name + b"\\0")); R.settle()
rnd(b"D1", b"Foo")
rnd(b"", b"Bar")
assert got == ["Foo", "Bar"], got
"""
