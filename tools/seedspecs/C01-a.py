PROPERTY = "C01"
NEEDS = "a switch whose hold actions are all disabled (hidden page), released after the hold time with the expiry only noticed at the release poll"
BREAKS = "A long press whose hold actions are all disabled triggers the normal actions when its expiry is noticed at the release itself."
EDITS = [("content/lib/pyswitch/controller/inputs.py",
"""            # Hold click
            for action in self.__actions_hold:
                if not action.enabled:
                    continue

                action.push()        
                action.release()

            return True
""",
"""            # Hold click
            triggered = False
            for action in self.__actions_hold:
                if not action.enabled:
                    continue

                action.push()        
                action.release()
                triggered = True

            return triggered
""")]
DEMO = '''
W = env.World()
Action = W.get("pyswitch.controller.actions:Action")
log = []
class En:
    def init(self, appl): pass
    def enabled(self, action): return False
class A(Action):
    def __init__(self, n, cb=None): super().__init__({"enableCallback": cb} if cb else {}); self.n = n
    def push(self): log.append(self.n)
m = rig.SwModel()
R = rig.Rig(W, inputs=[{"assignment": {"model": m}, "actions": [A("short")], "actionsHold": [A("hold", En())], "holdTimeMillis": 300}], ui=False)
R.tick(10)
m.down = True; R.tick(10)
m.down = False; R.tick(350)
print(log)
sys.exit(0 if log == [] else 1)
'''
