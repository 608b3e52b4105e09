from mc.checks import c01
from mc.checks.c01 import ASSUMPTIONS, LEVEL, RULE  # noqa

ID = "C02"


def phases(tier):
    return c01.phases_for(True, tier)
