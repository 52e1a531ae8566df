"""The rules, one function per property."""
CHECKS = {}


def prop(pid, level='other'):
    def deco(fn):
        CHECKS[pid] = (fn, level)
        return fn
    return deco


from . import (  # noqa: E402,F401
    tables, crypto, frame, tasks, notes, fields, data, utils, masks,
    secrets, reads)
