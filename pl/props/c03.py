"""C03: isl objects are consumed exactly as their declared contracts say."""
CONFIGS = ("noglpk",)  # paths that end in a failed assertion are not paths of the program
from . import ownership


def run(ctx):
    return ownership.select(
        ctx, {"leak", "double-release", "use-after-release", "release-of-borrowed"}, {"isl"},
        "Every isl object a function receives (a __isl_give result, a __isl_take parameter, or a callback argument "
        "declared __isl_take) is followed along every control-flow path to the exit: it must be handed to exactly one "
        "taking operation (or returned/stored), never used after that, and never released when only kept.", 1200)
