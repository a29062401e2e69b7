import e2e
from ._e2e import go


def run(case):
    return go(case, e2e.check_accounting, lambda c, o, r: o.manager.f_counter >= 3 and o.manager.o_counter >= 2)
