PROPERTY = "M01"
NEEDS = "two through sources of which one delivers an unknown MIDI event at the moment the other one delivers a message"
BREAKS = "an unknown event of one source drops the messages other sources delivered in the same round"
EDITS = [("content/lib/pyswitch/controller/midi.py", """                if isinstance(msg, MIDIUnknownEvent):
                    continue
""", """                if isinstance(msg, MIDIUnknownEvent):
                    return
""")]
DEMO = """
W = env.World()
midi = W.imp("pyswitch.controller.midi")
CC = W.get("adafruit_midi.control_change:ControlChange")
UE = W.get("adafruit_midi.midi_message:MIDIUnknownEvent")
class P:
    def __init__(self): self.q, self.s = [], []
    def receive(self): return self.q.pop(0) if self.q else None
    def send(self, m): self.s.append(m)
a, b, c = P(), P(), P()
m = midi.MidiController([midi.MidiRouting(a, c), midi.MidiRouting(b, c)])
x = CC(1, 2)
a.q, b.q = [UE(0xf8)], [x]
for i in range(4): m.receive()
assert c.s == [x], c.s
"""
