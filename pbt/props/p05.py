import e2e
from ._e2e import go


def run(case):
    return go(case, e2e.check_hunts, lambda c, o, r: len(r.hunt_info) >= 2)
