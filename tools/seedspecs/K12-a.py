PROPERTY = "K12"
NEEDS = "a deviance exactly at the lower calibration limit"
BREAKS = "the tuner shows a note exactly at the lower limit of the in tune range as out of tune"
EDITS = [("content/lib/pyswitch/ui/elements.py", "if value >= self.__calibration_low and value <= self.__calibration_high:", "if value > self.__calibration_low and value <= self.__calibration_high:")]
DEMO = """
W = env.World()
el, ui = W.imp("pyswitch.ui.elements"), W.imp("pyswitch.ui.ui")
KM = W.get("pyswitch.clients.kemper:KemperMappings")
t = el.TunerDisplay(mapping_note=KM.TUNER_NOTE(), mapping_deviance=KM.TUNER_DEVIANCE(), bounds=ui.DisplayBounds(0, 0, 240, 240), layout={"font": "/fonts/A.pcf"})
R = rig.Rig(W, inputs=[], splash=W.get("pyswitch.clients.local.callbacks.splashes:SplashesCallback")(t))
dv = t.deviance if hasattr(t, "deviance") else [x for x in list(vars(t).values()) + t.contents_flat() if hasattr(x, "in_tune")][0]
low = [v for k, v in vars(dv).items() if k.endswith("calibration_low")][0]
dv.set(low)
print(low, dv.in_tune)
assert dv.in_tune
dv.set(low - 1)
assert not dv.in_tune
"""
