"""C26: which statements are fused and in which order dimensions are taken."""
from ..spec import run as check

ABOUT = ("The graph of fusion conflicts, its colouring, the distribution of components and the scaling and shifting of the dimensions taken.")


CONFIGS = ("ndebug",)


def run(ctx):
    return check(ctx, "c26", ABOUT)
