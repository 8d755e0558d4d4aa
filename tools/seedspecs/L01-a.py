PROPERTY = "L01"
NEEDS = "lists of different lengths for push and release messages, and as many steps as the longer one needs to wrap"
BREAKS = "the release messages start again whenever the push messages do, so later ones are never sent"
EDITS = [("content/lib/pyswitch/clients/local/actions/rotate.py", "if self.__messages_release and self.__messages_release_pos >= len(self.__messages_release):", "if self.__messages_release and (self.__messages_release_pos >= len(self.__messages_release) or (self.__messages and self.__messages_pos == 0)):")]
DEMO = """
W = env.World()
s = rig.SwModel()
a = W.get("pyswitch.clients.local.actions.rotate:ROTATING_MESSAGES")(messages=[[0xb0, 1, 1], [0xb0, 1, 2]], messages_release=[[0xb0, 2, k] for k in (1, 2, 3)], led_colors=[(1, 2, 3)])
R = rig.Rig(W, inputs=[{"assignment": {"model": s, "pixels": (0,)}, "actions": [a]}], ui=False)
out = []
for _ in range(6):
    s.down = True; R.tick(20); s.down = False; R.tick(20)
    out += [m.hex() for m in R.sent_msgs()]
print(out)
rel = [m for m in out if m.startswith("b002")]
assert len(set(rel)) == 3 and rel[:3] == rel[3:], rel
"""
