""" Verdicts shared by all oracles. """


class Violation(Exception):
    """ The case breaks the property. """


class Known(Exception):
    """ The case shows a finding listed in known_findings.json. """

    def __init__(self, key, msg=''):
        super().__init__(msg)
        self.key = key


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def same(a, b):
    """ Equality in which nan equals nan. """
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b
