import e2e
from ._e2e import go


def run(case):
    return go(case, e2e.check_slots, lambda c, o, r: o.manager.o_counter >= 2)
