"""P09 withdrawals limited by the stores."""
from .budgetcheck import check

RULES = {
    "store-nonneg": "no water store becomes negative in any process of a step that starts with non-negative stores",
    "flux-limit": "what is reported as leaving a store over a step is at most what the store held plus what it received",
    "flux-nonneg": "one-directional fluxes are never negative",
}


def run(ctx):
    check(ctx, ("nonneg",), RULES, tuple(RULES))
