PROPERTY = "K02"
NEEDS = "the device is lost twice: first for longer than one connection attempt, then again after a new attempt and reconnection (multi-step history)"
BREAKS = "only the first failed attempt after the start tells the actions that values are unknown, so what was shown before the outage remains when the device comes back only after several attempts"
EDITS = [("content/lib/pyswitch/clients/kemper/__init__.py", """                if self.__has_been_running:
                    self.__client.notify_connection_lost()                    
""", """                if self.__has_been_running and not self.__lost_notified:
                    self.__lost_notified = True
                    self.__client.notify_connection_lost()                    
"""), ("content/lib/pyswitch/clients/kemper/__init__.py", """    def receive(self, midi_message):
        if not self.__init_sent:
            return
""", """    __lost_notified = False

    def receive(self, midi_message):
        if not self.__init_sent:
            return
""")]
DEMO = """
from kit import kdev
W = env.World()
km = W.imp("pyswitch.clients.kemper")
m = rig.SwModel()
a = W.get("pyswitch.clients.kemper.actions.effect_state:EFFECT_STATE")(slot_id=1, mode=20)
R = rig.Rig(W, inputs=[{"assignment": {"model": m, "pixels": (0,)}, "actions": [a]}], protocol=km.KemperBidirectionalProtocol(30))
dev = kdev.Device(W, 3, R.inport, R.port, rig=5)
dev.set((0x33, 0), 1); dev.set((0x33, 3), 1)
def run(ms):
    for _ in range(ms // 20):
        R.clock.advance(20); dev.update(); R.c.tick()
run(2000)
on = R.leds[0]
assert on != (0, 0, 0), on
for k in range(2):
    dev.link = False
    run(9000)
    gone = R.leds[0]
    assert gone != on, (k, on, gone)
    dev.link = True
    run(8000)
    assert R.leds[0] == on, (k, R.leds[0])
"""
