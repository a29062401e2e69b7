import e2e
from ._e2e import go


def run(case):
    return go(case, e2e.check_faults, lambda c, o, r: bool(r.of('raise') or r.of('silent') or c.get('faults')))
