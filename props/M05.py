"""Dependent parameters: the automaton of M04 with sources and dependents, several consumers each."""
from props import M04

ID = "M05"
RULE = ("A case is a running controller with 1-2 source parameters, 1-5 parameters depending on them (shipped: rig date with rig/amp/cabinet name; generated ones) and 1-6 consumers, "
        "a device whose sources change or not and whose answers come in time, late, twice or never; non-trivial when requests were sent; signature = the sequence of observed events.")
CASES = {"quick": 3000, "thorough": 50000}
FLOORS = {"requests": 8000, "answers": 4000, "dep_requests": 1500, "dep_notes": 1000, "dep_losses": 800, "notifications": 1500}
LEVEL_NOTE = ("Exploration: the automaton accepts exactly the traces in which a dependent parameter is requested once per change of its source and every consumer gets the answer; "
              "a lost source counts as loss of its dependents, which are asked for again when the source answers.")


def run_case(rng, rec, tier):
    M04.drive(rng, rec, tier, True)
