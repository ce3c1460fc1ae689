"""C20: the parts of a program that describe the same thing change together."""
from ..spec import run as check

ABOUT = ("Adding, removing and exchanging dimensions, hyperplanes, statements and parameters changes every part that has one entry per dimension, hyperplane, statement or parameter (domain, schedule, accesses, iterators, kinds of hyperplanes, dependence polyhedra, properties of hyperplanes).")


CONFIGS = ("ndebug",)


def run(ctx):
    return check(ctx, "c20", ABOUT)
