PROPERTY = "K06"
NEEDS = "the device reports another rig (or the load is slow) between push and release of a bank select switch"
BREAKS = "the release is sent for the rig position which is current at the release instead of the one which was pushed"
EDITS = [("content/lib/pyswitch/clients/kemper/actions/bank_select.py", "        self.__appl.client.set(self.__sent_rig_mapping, 0)\n        self.__sent_rig_mapping = None", "        self.__appl.client.set(MAPPING_RIG_SELECT(self.__mapping.value % NUM_RIGS_PER_BANK if self.__mapping.value != None else 0), 0)\n        self.__sent_rig_mapping = None")]
DEMO = """
W = env.World()
s = rig.SwModel()
a = W.get("pyswitch.clients.kemper.actions.bank_select:BANK_SELECT")(bank=3)
R = rig.Rig(W, inputs=[{"assignment": {"model": s, "pixels": (0,)}, "actions": [a]}])
R.feed(rig.cc(32, 0)); R.feed(rig.pc(7)); R.tick(300); R.tick(300)
R.sent_msgs()
s.down = True; R.tick(20)
R.feed(rig.cc(32, 0)); R.feed(rig.pc(14)); R.tick(300)
s.down = False; R.tick(20)
x = [m.hex() for m in R.sent_msgs() if m[0] == 0xb0]
print(x)
assert x == ["b02f02", "b03401", "b03400"], x
"""
