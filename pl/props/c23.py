"""C23: satisfaction of dependences and what follows from it."""
from ..spec import run as check

ABOUT = ("Which dependences are satisfied where, their directions, and the loops, bands, components and statements derived from them.")


CONFIGS = ("ndebug",)


def run(ctx):
    return check(ctx, "c23", ABOUT)
