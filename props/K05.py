"""Rig select: every configuration against an independent model of commands and displays."""
from vlib.rigsel import Sel

ID = "K05"
RULE = ("A case is 2-5 rig select actions (all modes, alternative rigs and banks, automatic ones with exclusions, colours, texts and callbacks) and a simulated device with 625 rigs; pushes (short and long) and device side changes "
        "follow. Every command on the wire and every LED, label colour and text equals an independent model. Signature = configuration and history; non-trivial when rigs were loaded.")
CASES = {"quick": 4000, "thorough": 60000}
FLOORS = {"presses_rig_select": 3000, "rig_changes_by_user": 1500, "device_changes": 1500, "display_checks": 12000, "auto_remembered": 300}
LEVEL_NOTE = "Exploration: an independent model of selection, alternatives and displays predicts every command and display after every step on the real controller with a simulated device."


def run_case(rng, rec, tier):
    S = Sel(rng, rec, ["rig_select"], npos=(2, 5))
    hist(S, rng, rec)


def hist(S, rng, rec, steps=(5, 14)):
    S.start()
    h = []
    for _ in range(rng.randint(*steps)):
        if rng.random() < 0.65:
            a = rng.choice(S.acts)
            S.press(a)
            h.append((S.acts.index(a), S.rig))
        else:
            S.device_change()
            h.append(S.rig)
        S.settle()
        S.verify("after %r" % (h[-3:],))
    rec.sig((repr(S.acts)[:400], repr(h)))
