"""Vocabulary shared by the contracts."""
import z3
from dv.values import *
from dv.engine import Contract, MAY
from dv.lib import PS, PSR, ps, mkfix, fvals, at, subst_tree

And, Or, Not, Implies, If, Ite = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.If
Int = z3.IntVal


def forall(lo, hi, fn, pat=None):
    i = qv()
    body = Implies(And(lo <= i, i < hi), fn(i))
    if pat is not None:
        return z3.ForAll([i], body, patterns=[pat(i)])
    return z3.ForAll([i], body)


def forall2(lo, hi, fn):
    """for lo <= i < j < hi"""
    i, j = qv(), qv()
    return z3.ForAll([i, j], Implies(And(lo <= i, i < j, j < hi), fn(i, j)))


def exists(lo, hi, fn):
    i = qv()
    return z3.Exists([i], And(lo <= i, i < hi, fn(i)))


def arr(c, fn, sort=I, name='spec'):
    """A spec array defined pointwise."""
    return defarr(sort, fn)


def targ(d, i=0):
    """i-th template argument of an instantiated function, as written by clang"""
    a = [x for x in d.get('inner', ()) if x.get('kind') == 'TemplateArgument']
    return a[i].get('type', {}).get('qualType', str(a[i].get('value'))) if len(a) > i else None


def inst(t, i=0):
    return lambda d: targ(d, i) is not None and targ(d, i).replace('std::', '') == t.replace('std::', '')


def par(t):
    """selects the overload with this text in its parameter list"""
    return lambda d: t in d['type']['qualType'].split('(', 1)[1]
