"""P06 snow water mass conservation."""
from .budgetcheck import check

RULES = {
    "snow-mass": "over a step, total snow ice plus liquid water changes by snowfall + rainfall - runoff - sublimation",
    "snow-phase": "over a step, total snow ice changes by snowfall - melt + refreezing - sublimation",
    "snow-sums": "snow water equivalent and depth are the sums over the layers",
}


def run(ctx):
    check(ctx, ("snow",), RULES, ("snow-mass", "snow-phase"))
