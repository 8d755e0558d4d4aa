PROPERTY = "U01"
NEEDS = "free memory between half of the limit and the limit"
BREAKS = "the low memory warning only appears when less than half of the configured limit is free"
EDITS = [("content/lib/pyswitch/controller/controller.py", "if mem_free() < self.__memory_warn_limit:", "if mem_free() < self.__memory_warn_limit / 2:")]
DEMO = """
W = env.World()
L = rig.label(W, text="orig")
W.mem.free = 8000
R = rig.Rig(W, labels=[L], config={"memoryWarnLimitBytes": 10000})
W.mem.free = 8000
for _ in range(100):
    R.tick(300)
L.text = "new"
R.tick(300)
print(L.text)
assert L.text == "Low Memory!", L.text
"""
