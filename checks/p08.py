"""P08 soil and sealed-surface water budgets."""
from .budgetcheck import check

RULES = {
    "root-zone": "root-zone depletion changes by -rainfall + evapotranspiration + percolation, limited to [0, available water]; percolation is the excess",
    "surface-layer": "surface-layer depletion changes by -rainfall + evaporation + percolation, limited to [0, evaporable water]; percolation is the excess",
    "sealed": "sealed-surface storage changes by rainfall - evaporation - excess runoff",
    "et-sum": "evapotranspiration = evaporation + transpiration where both are computed",
}


def run(ctx):
    check(ctx, ("soilwater",), RULES, tuple(RULES))
