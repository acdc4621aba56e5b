"""Contracts on src/value.rs."""
from speclib import *

MAXV = (1 << 64) - 1
VS = 'value::ValueSum'
RES_VS = 'std::result::Result<value::ValueSum, value::OverflowError>'


@invariant(VS)
def _(v):
    x = field(v, '0')
    return [sle(bvc(128, -MAXV), x), sle(x, bvc(128, MAXV))]


def in_range(x):
    """x : 129-bit or wider mathematical value."""
    w = x.sort
    return and_(sle(bvc(w, -MAXV), x), sle(x, bvc(w, MAXV)))


def add128(a, b):
    """(sum if it is a ValueSum, is it) for the mathematical sum of two i128."""
    wide = bvadd(sext(136, a), sext(136, b))
    return bvadd(a, b), in_range(wide)


# -- NoteValue ----------------------------------------------------------------
@contract('value::NoteValue::from_raw', 'P01')
def _(c, v):
    return c.S(v)


@contract('value::NoteValue::inner', 'P01')
def _(c, s):
    return c.f(s, '0')


@contract('value::NoteValue::from_bytes', 'P01')
def _(c, b):
    return c.S(M.from_le(c.seq(b)))


@contract('value::NoteValue::to_bytes', 'P01')
def _(c, s):
    return M.bytes_le(c.f(s, '0'))


@contract('value::NoteValue::to_le_bits', 'P01')
def _(c, s):
    v = c.f(s, '0')
    return Seq([('lit', [eq(extract(i, i, v), bvc(1, 1)) for i in range(64)])], ty('bool'))


@contract('value::NoteValue::zero', 'P01')
def _(c):
    return c.S(bvc(64, 0))


@contract('<value::NoteValue as std::ops::Sub>::sub', 'P01')
def _(c, a, b):
    return c.S(bvsub(zext(128, c.f(a, '0')), zext(128, c.f(b, '0'))))


@contract('<value::NoteValue as std::cmp::PartialEq>::eq', 'P01')
def _(c, a, b):
    return eq(c.f(a, '0'), c.f(b, '0'))


# -- ValueSum -------------------------------------------------------------------
@contract('value::ValueSum::zero', 'P01')
def _(c):
    return c.S(bvc(128, 0))


@contract('value::ValueSum::from_raw', 'P01')
def _(c, v):
    return c.S(sext(128, v))


@contract('value::ValueSum::magnitude_sign', 'P01')
def _(c, s):
    v = c.f(s, '0')
    ng = slt(v, bvc(128, 0))
    m = extract(63, 0, ite(ng, bvsub(bvc(128, 0), v), v))
    sg = TY[c.rty]['e'][1]
    return Tup([m, vite(ng, Adt(sg, variant(sg, 'Negative'), []), Adt(sg, variant(sg, 'Positive'), []))])


def vs_add(c, a, b, rty):
    r, ok = add128(field(a, '0'), field(b, '0'))
    return M.opt(rty, ok, Adt(ty(VS), 0, [r]))


@contract('<value::ValueSum as std::ops::Add>::add', 'P01')
def _(c, a, b):
    return vs_add(c, c.d(a), c.d(b), c.rty)


@contract('<value::ValueSum as std::cmp::PartialEq>::eq', 'P01')
def _(c, a, b):
    return eq(c.f(a, '0'), c.f(b, '0'))


def sum_spec(c, seq, rty):
    """Err as soon as a prefix sum leaves the range of ValueSum, the exact sum otherwise."""
    vs = ty(VS)
    is_ok = lambda r: is_variant(c, r, 0)

    def step(st, acc, x):
        a = as_variant(c, acc, 0, vs)
        r, ok = add128(field(a, '0'), field(x, '0'))
        return vite(and_(is_ok(acc), ok), Adt(rty, 0, [Adt(vs, 0, [r])]), c.err(t=rty))
    return c.fold(seq, Adt(rty, 0, [Adt(vs, 0, [bvc(128, 0)])]), step, rty)


for _n in ("value::<impl std::iter::Sum<&'a value::ValueSum> for std::result::Result<value::ValueSum, value::OverflowError>>::sum",
           'value::<impl std::iter::Sum<value::ValueSum> for std::result::Result<value::ValueSum, value::OverflowError>>::sum'):
    @contract(_n, 'P01 P02')
    def _(c, it):
        return sum_spec(c, c.iter(it, ty(VS)), c.rty)


@contract('value::<impl std::convert::TryFrom<value::ValueSum> for i64>::try_from', 'P01 P02')
def _(c, v):
    x = c.f(v, '0')
    ok = and_(sle(bvc(128, -(1 << 63)), x), sle(x, bvc(128, (1 << 63) - 1)))
    return vite(ok, c.ok(extract(63, 0, x)), c.err())


# -- trapdoors ---------------------------------------------------------------------
TD = 'value::ValueCommitTrapdoor'
VC = 'value::ValueCommitment'


@contract('value::ValueCommitTrapdoor::inner', 'P03')
def _(c, s):
    return c.f(s, '0')


@contract('value::ValueCommitTrapdoor::zero', 'P03')
def _(c):
    return c.S(fq(0))


@contract('value::ValueCommitTrapdoor::from_bytes', 'P03 P12')
def _(c, b):
    x, ok = M.f_from_repr(c.t(b), 'Fq')
    return Adt(c.rty, 0, [Adt(TY[c.rty]['a'][0], 0, [M.fval(x, 'Fq')]), ok])


@contract('value::ValueCommitTrapdoor::random', 'P03')
def _(c, rng):
    r = M.rng_draw(c.ex, c.st, rng, 'field')
    return c.S(M.fval(uf('random', (r,), 'U', 'Fq'), 'Fq'))


@contract('value::ValueCommitTrapdoor::into_bsk', 'P03')
def _(c, s):
    return Adt(c.rty, 0, [Opq(M.mk_sk(c.t(c.f(s, '0'))), field_types(c.rty, 0)[0])])


@contract('<value::ValueCommitTrapdoor as std::ops::Add<&value::ValueCommitTrapdoor>>::add', 'P03')
def _(c, a, b):
    return c.S(fadd('Fq', c.f(a, '0'), c.f(b, '0')))


@contract("<value::ValueCommitTrapdoor as std::iter::Sum<&'a value::ValueCommitTrapdoor>>::sum", 'P03')
def _(c, it):
    td = ty(TD)
    return c.fold(c.iter(it, td), Adt(td, 0, [fq(0)]), lambda st, a, x: Adt(td, 0, [fadd('Fq', field(a, '0'), field(x, '0'))]), td)


# -- commitments ---------------------------------------------------------------------
def cv_generators():
    pers = M.str_term('z.cash:Orchard-cv')
    return tuple(uf('h2c', (pers, to_term(bytes_seq(b)))) for b in (b'v', b'r'))


def cv_point(v, rcv):
    """[v] V + [rcv] R, v a 128-bit signed term in the range of ValueSum, rcv a scalar term."""
    V, R = cv_generators()
    ng = slt(v, bvc(128, 0))
    mag = lambda x: fnat('Fq', x)
    s = ite(ng, tm.poly_neg('Fq', mag(bvsub(bvc(128, 0), v))), mag(v))
    return M.g_add(M.g_mul(s, V), M.g_mul(rcv, R))


@contract('value::ValueCommitment::derive', 'P03')
def _(c, v, rcv):
    return c.S(M.gval(cv_point(c.f(v, '0'), c.t(c.f(rcv, '0')))))


@contract('value::ValueCommitment::into_bvk', 'P03')
def _(c, s):
    return Adt(c.rty, 0, [Opq(M.mk_vk(c.t(c.f(s, '0'))), field_types(c.rty, 0)[0])])


@contract('value::ValueCommitment::from_bytes', 'P03 P12')
def _(c, b):
    x, ok = M.g_from_repr(c.t(b))
    return Adt(c.rty, 0, [Adt(TY[c.rty]['a'][0], 0, [M.gval(x)]), ok])


@contract('value::ValueCommitment::to_bytes', 'P03 P12')
def _(c, s):
    return M.g_repr(c.ex, c.st, c.t(c.f(s, '0')))


for _n, _g in (('x', M.px), ('y', M.py)):
    @contract('value::ValueCommitment::' + _n, 'P03 P06')
    def _(c, s, g=_g):
        p = c.t(c.f(s, '0'))
        return vite(M.geq(p, M.g_zero()), fp(0), M.fval(g(p), 'Fp'))


@contract('<value::ValueCommitment as std::ops::Add<&value::ValueCommitment>>::add', 'P03')
def _(c, a, b):
    return c.S(M.gval(M.g_add(c.t(c.f(a, '0')), c.t(c.f(b, '0')))))


@contract('<value::ValueCommitment as std::ops::Sub>::sub', 'P03')
def _(c, a, b):
    return c.S(M.gval(M.g_add(c.t(c.f(a, '0')), M.g_neg(c.t(c.f(b, '0'))))))


for _n in ("<value::ValueCommitment as std::iter::Sum<&'a value::ValueCommitment>>::sum", '<value::ValueCommitment as std::iter::Sum>::sum'):
    @contract(_n, 'P03')
    def _(c, it):
        t = ty(VC)
        return c.fold(c.iter(it, t), Adt(t, 0, [M.gval(M.g_zero())]), lambda st, a, x: Adt(t, 0, [M.gval(M.g_add(to_term(field(a, '0')), to_term(field(x, '0'))))]), t)
