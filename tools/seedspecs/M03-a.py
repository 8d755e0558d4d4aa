PROPERTY = "M03"
NEEDS = "the first half of a two-part value arrives twice (with different values) before the second half"
BREAKS = "the outdated first half is combined with the second one"
EDITS = [("content/lib/pyswitch/controller/client.py", """        if value_1 != None:
            self.__value_1 = value_1
            return True
""", """        if value_1 != None:
            if self.__value_1 == None:
                self.__value_1 = value_1
            return True
""")]
DEMO = """
W = env.World()
R = rig.Rig(W, ui=False)
m = W.imp("pyswitch.clients.kemper").KemperMappings.RIG_ID()
class L:
    def parameter_changed(self, m): pass
    def request_terminated(self, m): pass
R.c.client.register(m, L())
for b in (rig.cc(32, 1), rig.cc(32, 0), rig.pc(7)):
    R.feed(b)
R.settle()
assert m.value == 7, m.value
"""
