""" Log in memory. """
import logmodel


def run(case):
    return logmodel.run(case, False)
