import e2e
from ._e2e import go


def run(case):
    return go(case, e2e.check_sharing, lambda c, o, r: len(r.of('inject')) >= 1)
