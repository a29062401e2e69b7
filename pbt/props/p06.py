import e2e
from ._e2e import go


def run(case):
    return go(case, e2e.check_kills, lambda c, o, r: len(o.manager.hunt_victims) >= 1)
