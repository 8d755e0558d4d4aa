PROPERTY = "K01"
NEEDS = "a device which answers the first connection request only after several seconds (slow start), then stays connected for at least half a lease"
BREAKS = "the keep-alive interval starts at the start of the controller instead of when the connection is established, so the next keep-alive comes too early or all at once"
EDITS = [("content/lib/pyswitch/clients/kemper/__init__.py", """        if self.state != self._STATE_RUNNING:
            self.resend_period.reset()
            
""", """        if self.state != self._STATE_RUNNING:
            
""")]
DEMO = """
W = env.World()
km = W.imp("pyswitch.clients.kemper")
R = rig.Rig(W, inputs=[], protocol=km.KemperBidirectionalProtocol(30), ui=False)
for _ in range(70):
    R.tick(200)                      # 14 s without device
R.sent_msgs()
R.feed(bytes.fromhex("f000203300007e007f01f7"))
n = 0
for _ in range(20):                  # 4 s: no keep-alive is due
    R.tick(200)
    R.feed(bytes.fromhex("f000203300007e007f01f7"))
    n += sum(1 for m in R.sent_msgs() if m[6] == 0x7e)
print("beacons", n)
sys.exit(0 if n == 0 else 1)
"""
