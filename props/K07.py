"""Bank up/down: every configuration against an independent model of commands and displays."""
from vlib.rigsel import Sel
from props.K05 import hist

ID = "K07"
RULE = ("A case is 1-4 bank up/down actions (direct or preselecting, highest bank, brightness and dimming settings, all display modes, colours, texts, callbacks), mixed with rig selects, and a simulated device with 125 banks; pushes and device side changes follow. Every command on the wire and every LED, label colour and text equals an independent model. Signature = configuration and history; non-trivial when commands were sent.")
CASES = {"quick": 4000, "thorough": 60000}
FLOORS = {"presses_bank_up": 1000, "presses_bank_down": 1000, "rig_changes_by_user": 1000, "device_changes": 1500, "display_checks": 9000, "preselections": 300}
LEVEL_NOTE = "Exploration: an independent model of commands and displays predicts every command and display after every step on the real controller with a simulated device."


def run_case(rng, rec, tier):
    S = Sel(rng, rec, ["bank_up", "bank_up", "bank_down", "bank_down", "rig_select"], npos=(1, 4), preselect=0.5)
    hist(S, rng, rec)
