from vg.oblig import Obl, refusals
P, E = ("aspsim.counter.PhaseCounter", "spec.count.PhaseCounter"), ("aspsim.counter.EventCounter", "spec.count.EventCounter")
OBLIGATIONS = [
    Obl("first phases", "count.phases", {"C": P}, see=[refusals()], contents=True),
    Obl("asking for a phase", "count.asked", {"C": P}, contents=True),
    Obl("any later step", "count.phases_later", types={"c": P}, contents=True),
    Obl("first events", "count.events", {"C": E}, contents=True),
    Obl("added events", "count.more_events", {"C": E}, contents=True),
    Obl("events added while counting", "count.events_added_later", types={"c": E}, contents=True),
    Obl("any later events", "count.events_later", types={"c": E}),
]
