PROPERTY = "M06"
NEEDS = "an encoder with a divisor other than 2 (two steps per detent hardware)"
BREAKS = "the divisor configured for an encoder is ignored"
EDITS = [("content/lib/pyswitch/hardware/adafruit/AdafruitEncoder.py", "divisor = self.__divisor)", "divisor = 2)")]
KIT = True
DEMO = """
W = env.World()
seen = []
class IE:
    def __init__(self, a, b, divisor=4):
        seen.append(divisor); self.position = 0; self.divisor = divisor
mod = W.imp("pyswitch.hardware.adafruit.AdafruitEncoder")
for k, v in list(vars(mod).items()):
    if k.endswith("IncrementalEncoder"):
        setattr(mod, k, IE)
e = mod.AdafruitEncoder("P1", "P2", divisor=1)
e.init()
print(seen)
assert seen == [1], seen
"""
