"""C24: transformations after the schedule is found."""
from ..spec import run as check

ABOUT = ("Tiling, tile schedules, the order of the loops in tiles, and the choice of what to tile and to mark.")


CONFIGS = ("ndebug",)


def run(ctx):
    return check(ctx, "c24", ABOUT)
