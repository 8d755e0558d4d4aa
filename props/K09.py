"""Preselected banks: blinking, taking, superseding, across pages and actions."""
from vlib.rigsel import Sel

ID = "K09"
RULE = ("A case is a configuration with several actions which preselect banks or select rigs (bank select, bank up/down, bank encoder, rig select, rig up/down), on two pages or one, a rig name display and a simulated device; "
        "pushes, encoder turns, device side rig changes, page changes and time follow in random order. Commands and displays equal an independent model at every step, and LEDs are watched over time while a bank is preselected. "
        "Signature = configuration and history; non-trivial when banks were preselected.")
CASES = {"quick": 2500, "thorough": 40000}
FLOORS = {"preselections": 1500, "preselection_taken": 300, "blinks": 3000, "device_changes": 500, "display_checks": 9000, "turns": 150, "page_changes": 300}
LEVEL_NOTE = "Exploration: an independent model of preselection predicts every command and display; blinking is measured on the LEDs over (virtual) time."
KINDS = ["rig_select", "rig_select", "bank_select", "bank_up", "bank_down", "rig_up", "rig_down"]


def run_case(rng, rec, tier):
    pages = rng.random() < 0.4
    S = Sel(rng, rec, KINDS, npos=(2, 5), pages=pages, encoder=rng.random() < 0.4, preselect=1)
    S.start()
    h = []
    for _ in range(rng.randint(4, 12)):
        k = rng.random()
        if k < 0.5:
            a = rng.choice(S.acts)
            if S.skip(a) and a.kind != "rig_select":
                continue
            S.press(a)
            h.append((S.acts.index(a), S.rig, S.presel))
        elif k < 0.65 and S.enc:
            S.turn(rng.choice([1, -1, 3, -2, 200]))
            h.append(("turn", S.presel))
        elif k < 0.8:
            S.device_change()
            h.append(S.rig)
        elif pages:
            S.next_page()
            h.append("page")
        S.settle(S.cfg["updateInterval"] * 3 + 60)
        S.verify("after %r" % (h[-3:],))
        if rng.random() < 0.3:
            S.watch_blink()
    rec.sig((repr(S.acts)[:400], repr(h)))
