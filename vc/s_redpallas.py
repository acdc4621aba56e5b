"""Contracts on src/primitives/redpallas.rs: the wrappers pass exactly their arguments to RedDSA."""
from speclib import *
from s_keys import grepr, frepr
from s_bundle import item, sig64

P = 'primitives::redpallas::'
SK, VK, SIG = P + 'SigningKey<T>', P + 'VerificationKey<T>', P + 'Signature<T>'


def sk(c, v):
    return M.sk_scalar(to_term(c.f(v, '0')))


def vk(c, v):
    return M.vk_point(to_term(c.f(v, '0')))


def inner(c):
    return field_types(c.rty, 0)[0]


for _n in ('&' + SK, SK):
    @contract(P + '<impl std::convert::From<%s> for [u8; 32]>::from' % _n, 'P12')
    def _(c, s):
        return frepr(sk(c, s), 'Fq')

for _n in ('&' + VK, VK):
    @contract(P + '<impl std::convert::From<%s> for [u8; 32]>::from' % _n, 'P12 P06 P16')
    def _(c, s):
        return grepr(vk(c, s))


@contract('<%s as std::convert::TryFrom<[u8; 32]>>::try_from' % SK, 'P12')
def _(c, b):
    x, ok = M.f_from_repr(c.t(b), 'Fq')
    t = TY[c.rty]['a']
    return vite(ok, c.ok(Adt(t[0], 0, [Opq(M.mk_sk(x), field_types(t[0], 0)[0])])), c.err(M.mkval('reddsa_error', [], t[1])))


@contract('<%s as std::convert::TryFrom<[u8; 32]>>::try_from' % VK, 'P12')
def _(c, b):
    x, ok = M.g_from_repr(c.t(b))
    t = TY[c.rty]['a']
    return vite(ok, c.ok(Adt(t[0], 0, [Opq(M.mk_vk(x), field_types(t[0], 0)[0])])), c.err(M.mkval('reddsa_error', [], t[1])))


@contract('<%s as std::convert::From<[u8; 64]>>::from' % SIG, 'P12')
def _(c, b):
    return c.S(Opq(uf('sig', (c.t(b),)), inner(c)))


@contract(P + '<impl std::convert::From<&%s> for [u8; 64]>::from' % SIG, 'P12 P17')
def _(c, s):
    return sig64(c.d(s))


@contract('<%s as std::cmp::PartialEq>::eq' % VK, 'P18')
def _(c, a, b):
    return M.geq(vk(c, a), vk(c, b))


@contract(P + 'SigningKey::<reddsa::orchard::SpendAuth>::randomize', 'P04 P18')
def _(c, s, r):
    return c.S(Opq(M.mk_sk(tm.poly_add('Fq', sk(c, s), c.t(r))), inner(c)))


@contract(P + 'VerificationKey::<reddsa::orchard::SpendAuth>::randomize', 'P04')
def _(c, s, r):
    return c.S(Opq(M.mk_vk(M.g_add(vk(c, s), M.g_mul(c.t(r), M.basepoint('SpendAuth')))), inner(c)))


@contract(P + 'SigningKey::<T>::sign', 'P18')
def _(c, s, rng, msg):
    r = M.rng_draw(c.ex, c.st, rng, 'sign')
    return c.S(Opq(uf('reddsa_sign', (to_term(c.f(s, '0')), r, to_term(c.seq(msg)))), inner(c)))


@contract(P + 'VerificationKey::<T>::verify', 'P18')
def _(c, s, msg, sig):
    ok = uf('reddsa_verifies', (vk(c, s), to_term(c.seq(msg)), to_term(c.f(sig, '0'))), 'B')
    return vite(ok, c.ok(Tup([])), c.err(M.mkval('reddsa_error', [], TY[c.rty]['a'][1])))


for _k in ('SpendAuth', 'Binding'):
    @contract(P + 'VerificationKey::<reddsa::orchard::%s>::create_batch_item' % _k, 'P19')
    def _(c, s, sig, msg, k=_k):
        return field(item(k, vk(c, s), c.d(sig), M.deepterm(c.ex, msg, c.st)), '0')
