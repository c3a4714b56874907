"""iris.analysis.maths (shim)."""
import operator


def add(cube, other, dim=None, in_place=False):
    return cube._binop(other, operator.add, "addsub", in_place)


def subtract(cube, other, dim=None, in_place=False):
    return cube._binop(other, operator.sub, "addsub", in_place)


def multiply(cube, other, dim=None, in_place=False):
    return cube._binop(other, operator.mul, "mul", in_place)


def divide(cube, other, dim=None, in_place=False):
    return cube._binop(other, operator.truediv, "div", in_place)


def exponentiate(cube, exponent, in_place=False):
    return cube ** exponent
