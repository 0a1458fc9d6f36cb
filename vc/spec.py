"""Vocabulary shared by the contract files in /verif/specs."""
import z3
from .values import *
from .contract import Contract
from .ir import Unsupported
from . import fl

IMP = z3.Implies
AND = z3.And
OR = z3.Or
NOT = z3.Not
IF = z3.If

_q = [0]


def K(name="k"):
    _q[0] += 1
    return z3.Int("%s_%d" % (name, _q[0]))


def forall(lo, hi, f, pat=None):
    k = K()
    b = f(k)
    return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), b))


def forall2(lo, hi, f):
    """all lo <= i < j < hi"""
    i, j = K("i"), K("j")
    return z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), f(i, j)))


def exists(lo, hi, f):
    k = K()
    return z3.Exists([k], z3.And(lo <= k, k < hi, f(k)))


def at(v, k):
    """element k of a vector of numbers, as a term"""
    x = sel(v.el, k if not isinstance(k, int) else iv(k))
    return x.r if isinstance(x, Fl) else x


def strict(v):
    """strictly increasing (adjacent form, as the induction lemma lifts it)"""
    return forall(iv(0), v.n - 1, lambda k: at(v, k) < at(v, k + 1))


def strict2(v):
    return forall2(iv(0), v.n, lambda i, j: at(v, i) < at(v, j))


def weak2(v):
    return forall2(iv(0), v.n, lambda i, j: at(v, i) <= at(v, j))


def absr(x):
    return z3.If(x >= 0, x, -x)


def same(v, w):
    return z3.And(v.n == w.n, forall(iv(0), v.n, lambda k: at(v, k) == at(w, k)))


def induct_strict(v):
    """adjacent samples increase => any two samples increase, by induction on the distance"""
    i, j = K("i"), K("j")
    step = z3.ForAll([i, j], IMP(AND(0 <= i, i < j, j + 1 < v.n, at(v, i) < at(v, j), at(v, j) < at(v, j + 1)), at(v, i) < at(v, j + 1)))
    return ("induction step: increasing", step, IMP(strict(v), strict2(v)))
