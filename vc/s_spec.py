"""Contracts on src/spec.rs and src/primitives/redpallas.rs."""
from speclib import *

ANY = 'P04 P07 P08 P10 P11 P13 P14'
NIP, NZB, NZS = 'spec::NonIdentityPallasPoint', 'spec::NonZeroPallasBase', 'spec::NonZeroPallasScalar'


@invariant(NIP)
def _(v):
    return [not_(M.geq(to_term(field(v, '0')), M.g_zero()))]


@invariant(NZB)
def _(v):
    return [not_(M.feq('Fp', to_term(field(v, '0')), to_term(fp(0))))]


@invariant(NZS)
def _(v):
    return [not_(M.feq('Fq', to_term(field(v, '0')), to_term(fq(0))))]


def unwnaf(v, scalar):
    t = to_term(field(v, '0'))
    op, un = ('wnafs', 'unwnafs') if scalar else ('wnafb', 'unwnafb')
    return t.args[0] if t.op == op else uf(un, (t,))


@invariant('spec::PreparedNonIdentityBase')
def _(v):
    return [not_(M.geq(unwnaf(v, False), M.g_zero()))]


@invariant('spec::PreparedNonZeroScalar')
def _(v):
    return [not_(M.feq('Fq', unwnaf(v, True), to_term(fq(0))))]


def nip(p):
    return Adt(ty(NIP), 0, [M.gval(p)])


def nzs(s):
    return Adt(ty(NZS), 0, [M.fval(s, 'Fq')])


def nzb(s):
    return Adt(ty(NZB), 0, [M.fval(s, 'Fp')])


def ctopt(c, v, ok, rty=None):
    return Adt(c.rty if rty is None else rty, 0, [v, ok])


@contract('spec::NonIdentityPallasPoint::from_bytes', 'P12 P14 P11')
def _(c, b):
    p, ok = M.g_from_repr(c.t(b))
    return ctopt(c, nip(p), and_(ok, not_(M.geq(p, M.g_zero()))))


@contract('spec::NonZeroPallasBase::from_bytes', 'P12 P10')
def _(c, b):
    x, ok = M.f_from_repr(c.t(b), 'Fp')
    return ctopt(c, nzb(x), and_(ok, not_(M.feq('Fp', x, to_term(fp(0))))))


@contract('spec::NonZeroPallasBase::from_base', 'P10')
def _(c, b):
    x = c.t(b)
    return ctopt(c, nzb(x), not_(M.feq('Fp', x, to_term(fp(0)))))


@contract('spec::NonZeroPallasBase::to_bytes', 'P12 P10')
def _(c, s):
    return M.f_repr(c.ex, c.st, c.t(c.f(s, '0')), 'Fp')


def nonzero_req(f):
    def req(c, s):
        return [not_(M.feq(f, c.t(s), tm.poly_const(f, 0)))]
    return req


@contract('spec::NonZeroPallasBase::guaranteed', 'P10', requires=nonzero_req('Fp'))
def _(c, s):
    return nzb(c.t(s))


@contract('spec::NonZeroPallasScalar::guaranteed', 'P10', requires=nonzero_req('Fq'))
def _(c, s):
    return nzs(c.t(s))


@contract('spec::NonZeroPallasScalar::from_bytes', 'P12 P07')
def _(c, b):
    x, ok = M.f_from_repr(c.t(b), 'Fq')
    return ctopt(c, nzs(x), and_(ok, not_(M.feq('Fq', x, tm.poly_const('Fq', 0)))))


@contract('spec::NonZeroPallasScalar::from_scalar', 'P07')
def _(c, s):
    x = c.t(s)
    return ctopt(c, nzs(x), not_(M.feq('Fq', x, tm.poly_const('Fq', 0))))


@contract('<spec::NonZeroPallasScalar as std::convert::From<spec::NonZeroPallasBase>>::from', 'P10')
def _(c, s):
    return nzs(mod_r_p(c.t(c.f(s, '0'))))


def mod_r_p(x):
    return uf('p2q', (x,))


@contract('spec::mod_r_p', 'P08 P10')
def _(c, x):
    return M.fval(mod_r_p(c.t(x)), 'Fq')


@contract('spec::to_base', 'P07 P10')
def _(c, b):
    return M.fval(uf('wide', (c.t(b),), 'U', 'Fp'), 'Fp')


@contract('spec::to_scalar', 'P07 P10')
def _(c, b):
    return M.fval(uf('wide', (c.t(b),), 'U', 'Fq'), 'Fq')


def fbits(c, x, n=255):
    """The n low bits of a base field element, least significant first."""
    v = M.f_bits(c and c.ex, c and c.st, x, 'Fp')
    return seq_slice(as_seq(v), bvc(64, 0), bvc(64, n))


def commit_ivk(c, ak, nk, rivk, rty):
    """Sinsemilla short commitment of ak || nk (255 bits each) under the CommitIvk domain."""
    dom = uf('sinsemilla', (M.str_term('z.cash:Orchard-CommitIvk'),), 'U', 'CommitDomain')
    bits = to_term(M.cat(fbits(c, ak), fbits(c, nk)))
    return M.sinsemilla_commit(rty, dom, bits, rivk, True)


@contract('spec::commit_ivk', 'P10 P11')
def _(c, ak, nk, rivk):
    return commit_ivk(c, c.t(ak), c.t(nk), c.t(rivk), c.rty)


def diversify_hash(d):
    """d : term of the 11 bytes."""
    pers = M.str_term('z.cash:Orchard-gd')
    p = uf('h2c', (pers, d))
    q = uf('h2c', (pers, to_term(bytes_seq(b''))))
    return ite(M.geq(p, M.g_zero()), q, p)


@contract('spec::diversify_hash', 'P11 P04 P13')
def _(c, d):
    return nip(diversify_hash(c.t(d)))


def prf_nf(nk, rho):
    return uf('poseidon_hash', (uf('poseidon', (), 'U'), to_term(Seq([('lit', [M.fval(nk, 'Fp'), M.fval(rho, 'Fp')])], ty(M.FP)))))


@contract('spec::ka_orchard', 'P14 P11')
def _(c, sk, b):
    return nip(M.g_mul(c.t(c.f(sk, '0')), c.t(c.f(b, '0'))))


@contract('spec::ka_orchard_prepared', 'P14 P11')
def _(c, sk, b):
    return nip(M.g_mul(unwnaf(c.d(sk), True), unwnaf(c.d(b), False)))


@contract('spec::PreparedNonIdentityBase::new', 'P14')
def _(c, b):
    return c.S(Opq(uf('wnafb', (c.t(c.f(b, '0')),)), field_types(c.rty, 0)[0]))


@contract('spec::PreparedNonZeroScalar::new', 'P14')
def _(c, b):
    return c.S(Opq(uf('wnafs', (c.t(c.f(b, '0')),)), field_types(c.rty, 0)[0]))


def xp(p):
    """Extract_P."""
    return ite(M.geq(p, M.g_zero()), tm.poly_const('Fp', 0), M.px(p))


@contract('spec::extract_p', 'P07 P08')
def _(c, p):
    return M.fval(xp(c.t(p)), 'Fp')
