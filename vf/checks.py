"""The registered checks: property id -> (function, rule, least observations)."""
CHECKS = {}


def check(prop, rule, **needs):
    def deco(fn):
        CHECKS[prop] = (fn, rule, needs)
        return fn
    return deco


def load():
    from vf import checks_mpi, checks_serial
