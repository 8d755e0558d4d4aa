PROPERTY = "K10"
NEEDS = "two different rigs in one session: the tempo changes together with a rig change, and later again on the new rig"
BREAKS = "tempo changes on any rig but the first one loaded are not announced in the change display anymore"
EDITS = [("content/lib/pyswitch/clients/kemper/actions/tempo.py", "                if self.__preview:\n                    self.__last_rig", "                if self.__preview and self.__last_rig == None:\n                    self.__last_rig")]
DEMO = """
PRE = bytes([0x00, 0x20, 0x33])
W = env.World()
name = rig.label(W, text="name")
a = W.get("pyswitch.clients.kemper.actions.tempo:SHOW_TEMPO")(change_display=name)
R = rig.Rig(W, inputs=[{"assignment": {"model": rig.SwModel(), "pixels": (0,)}, "actions": [a]}])
def bpm(v):
    v *= 64
    R.feed(rig.sysex(PRE, bytes([2, 0x7f, 1, 0, 4, 0, v >> 7, v & 127])))
    R.feed(rig.sysex(PRE, bytes([2, 0x7f, 1, 0, 0x7c, 0, 0, 1])))
    R.run(600, 20)
def load(n):
    R.feed(rig.cc(32, 0)); R.feed(rig.pc(n)); R.run(600, 20)
load(3); bpm(100); bpm(110)
x = [name.text]
R.run(4000, 50)
load(4); R.run(4000, 50); bpm(90); R.run(4000, 50); bpm(130)
x.append(name.text)
print(x)
assert x == ["110 bpm", "130 bpm"], x
"""
