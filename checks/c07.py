from common import *

META = {"rule": "value-flow summary of a run up to the start of its second, third ... phase (building, resetting and starting it, however "
                "divided among functions; evaluation and step uninterpreted): each setting is, under the guard that its configuration "
                "entry is present, exactly that entry, and otherwise exactly the preceding phase's setting (provenance of every "
                "leaf), the neutral default in the first phase; never a mixture, never another entry"}
DOM = Domain((r".*", "any", -50, 50))


def run(c):
    def later():
        for s in starts(c):
            settings(s, DOM)
            carried(s, DOM)

    def first():
        for s in starts(c, later=False):
            settings(s, DOM)
    def steps():
        # what a later phase takes over is what was set, not what a step made of it
        PhaseStep(c).phase_intact({"state", "stepsize", "end_criterion_tries", "ended"})
    c.guard(later, "later phases")
    c.guard(steps, "settings between the events")
    c.guard(first, "first phase")
