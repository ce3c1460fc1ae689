"""C21: the operations on matrices and constraint systems."""
from ..spec import run as check

ABOUT = ("The operations on matrices and constraint systems change the entries they are documented to change, to the documented values, and no others.")


CONFIGS = ()


def run(ctx):
    return check(ctx, "c21", ABOUT)
