"""One entry per property: what is modelled, generated, executed, validated."""
import os
REGISTRY = {}


def check(prop):
    def deco(f):
        REGISTRY[prop] = f
        return f
    return deco


from . import tls, fix, core, mpc, vm, e2e  # noqa: E402,F401
