"""P07 precipitation and canopy storage are partitioned without loss."""
from .budgetcheck import check

RULES = {
    "precip-phase-sum": "after every process that changes precipitation, snowfall or rainfall: precipitation = snowfall + rainfall",
    "canopy-store": "canopy store changes by intercepted snowfall - canopy sublimation - melt unload",
    "canopy-ground": "snowfall below the canopy = snowfall above - intercepted snowfall + melt unload",
}


def run(ctx):
    check(ctx, ("precip",), RULES, tuple(RULES))
