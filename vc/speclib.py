"""What the specifications are written with."""
from values import *
import values as vals
import term as tm
import models as M
from prove import contract, invariant, Contract, Ctx, Lost, REG, field, fidx, tyof
from exec import arith_overflow, int_cast


def variant(tyid, name):
    for i, v in enumerate(ADTS[TY[tyid]['p']]['v']):
        if v['n'] == name:
            return i
    raise Lost('variant %s of %s' % (name, TY[tyid]['s']))


def is_variant(c, v, var):
    """v is in the given variant, as a condition."""
    d = c.ex.discr(v, 64, c.st)
    return eq(d, bvc(d.sort, var))


def as_variant(c, v, var, ety):
    """First field of v seen as the given variant."""
    return project(v, 0, ety, var)


def fq(n):
    return M.fval(tm.poly_const('Fq', n), 'Fq')


def fp(n):
    return M.fval(tm.poly_const('Fp', n), 'Fp')


def fadd(f, a, b):
    return M.fval(tm.poly_add(f, to_term(a), to_term(b)), f)


def fnat(f, x):
    """Field element of a natural number (bit vector)."""
    return M._u2f(f, zext(128, x) if x.sort < 128 else x)


# The code is of a form the specification does not recognise: neither proved nor refuted.
NOSHAPE = uf('noshape', (), 'B')
