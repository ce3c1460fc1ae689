"""C22: the problem that is solved for a hyperplane."""
from ..spec import run as check

ABOUT = ("The constraints from which hyperplanes are found, the hand-over of the problem to the solver and of the solution to the program.")


CONFIGS = ("ndebug",)


def run(ctx):
    return check(ctx, "c22", ABOUT)
