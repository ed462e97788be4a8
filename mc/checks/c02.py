"""C02: every SGLD step follows preconditioned Langevin dynamics."""
from . import c01
from ..stepcheck import check  # noqa: F401

BOUNDS = c01.BOUNDS.replace("mdecay", "A")
ASSUMPTIONS = c01.ASSUMPTIONS


def plan(tier, rng):
    return c01.plan(tier, rng, sampler="SGLD")
