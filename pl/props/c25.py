"""C25: between isl and the program."""
from ..spec import run as check

ABOUT = ("Constraints, functions, accesses, dependences, statements and schedules on their way from isl to the program and back.")


CONFIGS = ("ndebug",)


def run(ctx):
    return check(ctx, "c25", ABOUT)
