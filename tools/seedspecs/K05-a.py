PROPERTY = "K05"
NEEDS = "a rig select action with bank, bank_off but without rig_off, shown while its rig is current"
BREAKS = "the label shows the colour of the bank which is current instead of the one the next press leads to"
EDITS = [("content/lib/pyswitch/clients/kemper/actions/rig_select.py", "            if self.__bank_off != None and is_current:\n                return", "            if self.__bank_off != None and is_current and self.__rig_off != None:\n                return")]
DEMO = """
W = env.World()
lab = rig.label(W)
K = W.imp("pyswitch.clients.kemper.actions.rig_select")
a = K.RIG_SELECT(rig=2, bank=1, bank_off=3, display=lab, display_mode=K.RIG_SELECT_DISPLAY_TARGET_RIG)
R = rig.Rig(W, inputs=[{"assignment": {"model": rig.SwModel(), "pixels": (0,)}, "actions": [a]}])
R.feed(rig.cc(32, 0)); R.feed(rig.pc(1)); R.run(600, 50)
B = W.get("pyswitch.clients.kemper:BANK_COLORS")
print(lab.text, lab.back_color, R.leds[0])
assert tuple(lab.back_color) == tuple(B[2]), lab.back_color
"""
