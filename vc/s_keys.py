"""Contracts on src/keys.rs and src/address.rs."""
from speclib import *
from s_spec import *

SK, ASK, AK = 'keys::SpendingKey', 'keys::SpendAuthorizingKey', 'keys::SpendValidatingKey'
NK, RIVK, FVK = 'keys::NullifierDerivingKey', 'keys::CommitIvkRandomness', 'keys::FullViewingKey'
KA, IVK, OVK, DK = 'keys::KeyAgreementPrivateKey', 'keys::IncomingViewingKey', 'keys::OutgoingViewingKey', 'keys::DiversifierKey'
DIV, ADDR, DTK = 'keys::Diversifier', 'address::Address', 'keys::DiversifiedTransmissionKey'
EPK, ESK = 'keys::EphemeralPublicKey', 'keys::EphemeralSecretKey'
RSK, RVK = 'primitives::redpallas::SigningKey', 'primitives::redpallas::VerificationKey'
SPENDAUTH = '<reddsa::orchard::SpendAuth>'

# domain separators of PRF^expand (protocol specification 5.4.2)
D_ESK, D_RCM, D_ASK, D_NK, D_RIVK, D_PSI = 4, 5, 6, 7, 8, 9
D_DK_OVK, D_RIVK_INT, D_ZIP32 = 0x82, 0x83, 0x81
EMPTY = Seq([], None)


def seqof(t, n):
    """Sequence of the n bytes denoted by term t."""
    vals.KNOWN_LEN[t] = n
    return as_seq(Opq(t, ty('[u8; %d]' % n)))


def by(v, n=32):
    return v if isinstance(v, Seq) else seqof(to_term(v), n)


def prf(key, dom, *t):
    return M.prf_expand(by(key), bvc(8, dom), M.cat(*t) if t else Seq([], ty('u8')))


def wide(f, s):
    return uf('wide', (to_term(s),), 'U', f)


def sk_bytes(v):
    return by(field(v, '0'))


def ask0(v):
    return wide('Fq', prf(sk_bytes(v), D_ASK))


def ask_of(v):
    """(ask, ak): the spend authorizing scalar and validating point of a spending key."""
    a = ask0(v)
    p = M.g_mul(a, M.basepoint('SpendAuth'))
    neg = eq(extract(7, 7, M.g_repr(None, None, p).concrete()[31]), bvc(1, 1))
    return ite(neg, tm.poly_neg('Fq', a), a), ite(neg, M.g_neg(p), p)


def nk_of(v):
    return wide('Fp', prf(sk_bytes(v), D_NK))


def rivk_of(v):
    return wide('Fq', prf(sk_bytes(v), D_RIVK))


def ak_pt(v):
    """Point of a SpendValidatingKey."""
    return M.vk_point(to_term(field(field(v, '0'), '0')))


def fvk_parts(v):
    return ak_pt(field(v, 'ak')), to_term(field(field(v, 'nk'), '0')), to_term(field(field(v, 'rivk'), '0'))


def frepr(x, f):
    return M.f_repr(None, None, x, f)


def grepr(p):
    return M.g_repr(None, None, p)


def internal_rivk(ak, nk, rivk):
    return wide('Fq', prf(frepr(rivk, 'Fq'), D_RIVK_INT, grepr(ak), frepr(nk, 'Fp')))


CTB = 'subtle::CtOption<pasta_curves::Fp>'


def ivk_of(ak, nk, rivk):
    """(ivk, it is defined and not zero)."""
    dom = uf('sinsemilla', (M.str_term('z.cash:Orchard-CommitIvk'),), 'U', 'CommitDomain')
    bits = to_term(M.cat(fbits(None, xp(ak)), fbits(None, nk)))
    r = M.sinsemilla_commit(None, dom, bits, rivk, True)
    x = to_term(r.fs[0])
    return x, and_(r.fs[1], not_(M.feq('Fp', x, tm.poly_const('Fp', 0))))


def both_ivks(ak, nk, rivk):
    return and_(ivk_of(ak, nk, rivk)[1], ivk_of(ak, nk, internal_rivk(ak, nk, rivk))[1])


def sign0(p):
    return eq(extract(7, 7, grepr(p).concrete()[31]), bvc(1, 0))


@invariant(AK)
def _(v):
    p = ak_pt(v)
    return [not_(M.geq(p, M.g_zero())), sign0(p)]


@invariant(ASK)
def _(v):
    x = ask_scalar(v)
    return [not_(M.feq('Fq', x, tm.poly_const('Fq', 0))), sign0(M.g_mul(x, M.basepoint('SpendAuth')))]


@invariant(SK)
def _(v):
    ak = ask_of(v)[1]
    return [not_(M.feq('Fq', ask0(v), tm.poly_const('Fq', 0))), both_ivks(ak, nk_of(v), rivk_of(v))]


@invariant(FVK)
def _(v):
    return [both_ivks(*fvk_parts(v))]


def A(name, *fs):
    return Adt(ty(name), 0, list(fs))


def mk_ask(x):
    s = ty(RSK + SPENDAUTH)
    return A(ASK, Adt(s, 0, [Opq(M.mk_sk(x), field_types(s, 0)[0])]))


def mk_rvk(p):
    s = ty(RVK + SPENDAUTH)
    return Adt(s, 0, [Opq(M.mk_vk(p), field_types(s, 0)[0])])


def mk_ak(p):
    return A(AK, mk_rvk(p))


def mk_fvk(ak, nk, rivk):
    return A(FVK, mk_ak(ak), A(NK, M.fval(nk, 'Fp')), A(RIVK, M.fval(rivk, 'Fq')))


def ask_scalar(v):
    return M.sk_scalar(to_term(field(field(v, '0'), '0')))


# ---------------------------------------------------------------- spending keys
@contract('keys::SpendAuthorizingKey::derive_inner', 'P10', noinv=(SK,))
def _(c, sk):
    return M.fval(ask0(c.d(sk)), 'Fq')


@contract('<keys::SpendAuthorizingKey as std::convert::From<&keys::SpendingKey>>::from', 'P10', noinv=(SK,),
          panics=lambda c, sk: M.feq('Fq', ask0(c.d(sk)), tm.poly_const('Fq', 0)),
          note='panics only for ask = 0, which the invariant of spending keys excludes')
def _(c, sk):
    return mk_ask(ask_of(c.d(sk))[0])


def ask_from_ok(c, sk):
    return [not_(M.feq('Fq', ask0(c.d(sk)), tm.poly_const('Fq', 0)))]


@contract('<keys::SpendValidatingKey as std::convert::From<&keys::SpendAuthorizingKey>>::from', 'P10', noinv=(AK, ASK))
def _(c, ask):
    return mk_ak(M.g_mul(ask_scalar(c.d(ask)), M.basepoint('SpendAuth')))


@contract('<keys::NullifierDerivingKey as std::convert::From<&keys::SpendingKey>>::from', 'P10', noinv=(SK,))
def _(c, sk):
    return A(NK, M.fval(nk_of(c.d(sk)), 'Fp'))


@contract('<keys::CommitIvkRandomness as std::convert::From<&keys::SpendingKey>>::from', 'P10', noinv=(SK,))
def _(c, sk):
    return A(RIVK, M.fval(rivk_of(c.d(sk)), 'Fq'))


@contract('<keys::FullViewingKey as std::convert::From<&keys::SpendingKey>>::from', 'P10 P12', noinv=(SK, FVK),
          panics=lambda c, sk: M.feq('Fq', ask0(c.d(sk)), tm.poly_const('Fq', 0)),
          note='before validation of the spending key: panics only for ask = 0')
def _(c, sk):
    v = c.d(sk)
    return mk_fvk(ask_of(v)[1], nk_of(v), rivk_of(v))


@contract('valid: keys::FullViewingKey from keys::SpendingKey', 'P10', alias=('<keys::FullViewingKey as std::convert::From<&keys::SpendingKey>>::from',),
          note='the same function on valid spending keys: never panics, the result satisfies the key invariant')
def _(c, sk):
    v = c.d(sk)
    return mk_fvk(ask_of(v)[1], nk_of(v), rivk_of(v))


@contract('keys::SpendingKey::from_bytes', 'P10 P12',
          panics=lambda c, b: M.feq('Fq', wide('Fq', prf(c.t(b), D_ASK)), tm.poly_const('Fq', 0)),
          note='may panic for ask = 0 (a preimage of zero under BLAKE2b modulo q; none is known)')
def _(c, b):
    v = A(SK, c.d(b))
    ok = and_(not_(M.feq('Fq', ask0(v), tm.poly_const('Fq', 0))), both_ivks(ask_of(v)[1], nk_of(v), rivk_of(v)))
    return ctopt(c, v, ok)


@contract('keys::SpendingKey::to_bytes', 'P10 P12')
def _(c, s):
    return c.f(s, '0')


@contract('keys::SpendAuthorizingKey::randomize', 'P04 P18 P10')
def _(c, s, r):
    t = M.mk_sk(tm.poly_add('Fq', ask_scalar(c.d(s)), c.t(r)))
    return c.S(Opq(t, field_types(c.rty, 0)[0]))


# ---------------------------------------------------------------- validating key
@contract('keys::SpendValidatingKey::randomize', 'P04 P10')
def _(c, s, r):
    p = M.g_add(ak_pt(c.d(s)), M.g_mul(c.t(r), M.basepoint('SpendAuth')))
    return c.S(Opq(M.mk_vk(p), field_types(c.rty, 0)[0]))


@contract('keys::SpendValidatingKey::to_bytes', 'P10 P12')
def _(c, s):
    return grepr(ak_pt(c.d(s)))


def ak_from(b):
    """(point, accepted) for 32 bytes."""
    p, ok = M.g_from_repr(to_term(b))
    top = b.concrete()[31]
    z = TRUE
    for x in b.concrete():
        z = and_(z, eq(x, bvc(8, 0)))
    return p, and_(not_(z), eq(extract(7, 7, top), bvc(1, 0)), ok)


def arr32(c, b):
    s = c.seq(b)
    return s


@contract('keys::SpendValidatingKey::from_bytes', 'P10 P12')
def _(c, bytes):
    s = c.seq(bytes)
    n = seq_len(s)
    b32 = M.fix_len(s, 32)
    p, ok = ak_from(b32)
    return M.opt(c.rty, and_(eq(n, bvc(64, 32)), ok), mk_ak(p))


@contract('keys::<impl std::convert::From<&keys::SpendValidatingKey> for pasta_curves::Ep>::from', 'P10 P05')
def _(c, s):
    return M.gval(ak_pt(c.d(s)))


@contract('<keys::SpendValidatingKey as std::cmp::PartialEq>::eq', 'P10 P18')
def _(c, a, b):
    return M.geq(ak_pt(c.d(a)), ak_pt(c.d(b)))


# ---------------------------------------------------------------- nk, rivk
@contract('keys::NullifierDerivingKey::prf_nf', 'P08 P10')
def _(c, s, rho):
    return M.fval(prf_nf_(c.t(c.f(s, '0')), c.t(rho)), 'Fp')


POSEIDON = "halo2_gadgets::poseidon::primitives::Hash<pasta_curves::Fp, halo2_gadgets::poseidon::primitives::P128Pow5T3, halo2_gadgets::poseidon::primitives::ConstantLength<2>, 3, 2>"


def prf_nf_(nk, rho):
    return uf('poseidon_hash', (uf('poseidon', (), 'U', POSEIDON), to_term(Seq([('lit', [M.fval(nk, 'Fp'), M.fval(rho, 'Fp')])], ty(M.FP)))))


@contract('spec::prf_nf', 'P08')
def _(c, nk, rho):
    return M.fval(prf_nf_(c.t(nk), c.t(rho)), 'Fp')


@contract('keys::NullifierDerivingKey::to_bytes', 'P10 P12')
def _(c, s):
    return frepr(c.t(c.f(s, '0')), 'Fp')


@contract('keys::NullifierDerivingKey::from_bytes', 'P10 P12')
def _(c, bytes):
    s = c.seq(bytes)
    x, ok = M.f_from_repr(to_term(M.fix_len(s, 32)), 'Fp')
    return M.opt(c.rty, and_(eq(seq_len(s), bvc(64, 32)), ok), A(NK, M.fval(x, 'Fp')))


@contract('keys::CommitIvkRandomness::to_bytes', 'P10 P12')
def _(c, s):
    return frepr(c.t(c.f(s, '0')), 'Fq')


@contract('keys::CommitIvkRandomness::from_bytes', 'P10 P12')
def _(c, bytes):
    s = c.seq(bytes)
    x, ok = M.f_from_repr(to_term(M.fix_len(s, 32)), 'Fq')
    return M.opt(c.rty, and_(eq(seq_len(s), bvc(64, 32)), ok), A(RIVK, M.fval(x, 'Fq')))


# ---------------------------------------------------------------- full viewing key
def internal(c, scope):
    return is_variant(c, c.d(scope), variant(ty('zip32::Scope'), 'Internal'))


def scoped(c, fvk, scope):
    """(ak, nk, rivk) of the viewing key used for a scope."""
    ak, nk, rivk = fvk_parts(c.d(fvk))
    return ak, nk, ite(internal(c, scope), internal_rivk(ak, nk, rivk), rivk)


@contract('keys::FullViewingKey::rivk', 'P10 P05', noinv=(FVK,))
def _(c, s, scope):
    return A(RIVK, M.fval(scoped(c, s, scope)[2], 'Fq'))


@contract('keys::FullViewingKey::nk', 'P10 P08 P05')
def _(c, s):
    return c.f(s, 'nk')


@contract('<keys::SpendValidatingKey as std::convert::From<keys::FullViewingKey>>::from', 'P10 P05')
def _(c, s):
    return c.f(s, 'ak')


def dk_ovk(ak, nk, rivk):
    r = prf(frepr(rivk, 'Fq'), D_DK_OVK, grepr(ak), frepr(nk, 'Fp'))
    return seq_slice(r, bvc(64, 0), bvc(64, 32)), seq_slice(r, bvc(64, 32), bvc(64, 64))


@contract('keys::FullViewingKey::derive_dk_ovk', 'P10 P11 P14', noinv=(FVK,))
def _(c, s):
    dk, ovk = dk_ovk(*fvk_parts(c.d(s)))
    return Tup([A(DK, dk), A(OVK, ovk)])


@contract('keys::FullViewingKey::derive_internal', 'P10 P11', noinv=(FVK,))
def _(c, s):
    ak, nk, rivk = fvk_parts(c.d(s))
    return mk_fvk(ak, nk, internal_rivk(ak, nk, rivk))


def ka(ivk):
    return A(KA, nzs(mod_r_p(ivk)))


def mk_ivk(ak, nk, rivk):
    return A(IVK, A(DK, dk_ovk(ak, nk, rivk)[0]), ka(ivk_of(ak, nk, rivk)[0]))


def ivk_ok(c, fvk):
    return [ivk_of(*fvk_parts(c.d(fvk)))[1]]


@contract('keys::KeyAgreementPrivateKey::derive_inner', 'P10 P11', noinv=(FVK,))
def _(c, fvk):
    x, ok = ivk_of(*fvk_parts(c.d(fvk)))
    return ctopt(c, nzb(x), ok)


@contract('keys::KeyAgreementPrivateKey::from_fvk', 'P10 P11', noinv=(FVK,), requires=ivk_ok)
def _(c, fvk):
    return ka(ivk_of(*fvk_parts(c.d(fvk)))[0])


@contract('keys::IncomingViewingKey::from_fvk', 'P10 P11', noinv=(FVK,), requires=ivk_ok)
def _(c, fvk):
    return mk_ivk(*fvk_parts(c.d(fvk)))


@contract('keys::OutgoingViewingKey::from_fvk', 'P10 P14', noinv=(FVK,))
def _(c, fvk):
    return A(OVK, dk_ovk(*fvk_parts(c.d(fvk)))[1])


@contract('keys::FullViewingKey::to_ivk', 'P10 P11 P05')
def _(c, s, scope):
    return mk_ivk(*scoped(c, s, scope))


@contract('keys::FullViewingKey::to_ovk', 'P10 P14')
def _(c, s, scope):
    return A(OVK, dk_ovk(*scoped(c, s, scope))[1])


@contract('keys::FullViewingKey::to_bytes', 'P10 P12')
def _(c, s):
    ak, nk, rivk = fvk_parts(c.d(s))
    return M.cat(grepr(ak), frepr(nk, 'Fp'), frepr(rivk, 'Fq'))


def sl(s, i, j):
    return seq_slice(s, bvc(64, i), bvc(64, j))


def fvk_from(b):
    ak, c1 = ak_from(sl(b, 0, 32))
    nk, c2 = M.f_from_repr(to_term(sl(b, 32, 64)), 'Fp')
    rivk, c3 = M.f_from_repr(to_term(sl(b, 64, 96)), 'Fq')
    return mk_fvk(ak, nk, rivk), and_(c1, c2, c3, both_ivks(ak, nk, rivk))


@contract('keys::FullViewingKey::from_bytes', 'P10 P12')
def _(c, bytes):
    v, ok = fvk_from(c.seq(bytes))
    return M.opt(c.rty, ok, v)


# ---------------------------------------------------------------- diversifiers, addresses
def ff1(dk, x, inverse=False):
    return M.ff1(uf('ff1', (to_term(by(dk)),)), to_term(Seq([], ty('u8'))), to_term(x), inverse)


def div(t):
    return A(DIV, seqof(t, 11))


def transmission(ivk, d):
    return M.g_mul(ivk, diversify_hash(d))


def mk_addr(d, pk):
    return A(ADDR, d, A(DTK, nip(pk)))


def into_index(c, j):
    """The diversifier index an Into<DiversifierIndex> argument stands for (11 bytes)."""
    return by(field(M.into(c.ex, c.st, j, ty('zip32::DiversifierIndex')), '0'), 11)


@contract('keys::DiversifierKey::get', 'P11')
def _(c, s, j):
    return div(ff1(c.f(s, '0'), into_index(c, j)))


@contract('keys::DiversifierKey::diversifier_index', 'P11')
def _(c, s, d):
    return A('zip32::DiversifierIndex', seqof(ff1(c.f(s, '0'), by(c.f(d, '0'), 11), True), 11))


@contract('keys::DiversifiedTransmissionKey::derive', 'P11')
def _(c, ivk, d):
    return A(DTK, nip(transmission(unwnaf(c.f(ivk, '0'), True), to_term(c.f(d, '0')))))


def ka_scalar(v):
    return to_term(field(field(v, '0'), '0'))


@contract('keys::KeyAgreementPrivateKey::address', 'P11')
def _(c, s, d):
    dv = c.d(d)
    return mk_addr(dv, transmission(ka_scalar(c.d(s)), to_term(by(field(dv, '0'), 11))))


@contract('keys::IncomingViewingKey::address', 'P11')
def _(c, s, d):
    dv = c.d(d)
    return mk_addr(dv, transmission(ka_scalar(c.f(s, 'ivk')), to_term(by(field(dv, '0'), 11))))


def addr_at(ivk, idx):
    d = div(ff1(field(field(ivk, 'dk'), '0'), idx))
    return mk_addr(d, transmission(ka_scalar(field(ivk, 'ivk')), to_term(d.fs[0])))


@contract('keys::IncomingViewingKey::address_at', 'P11')
def _(c, s, j):
    return addr_at(c.d(s), into_index(c, j))


@contract('keys::FullViewingKey::address_at', 'P11')
def _(c, s, j, scope):
    return addr_at(mk_ivk(*scoped(c, s, scope)), into_index(c, j))


@contract('keys::FullViewingKey::address', 'P11')
def _(c, s, d, scope):
    dv = c.d(d)
    ivk = ivk_of(*scoped(c, s, scope))[0]
    return mk_addr(dv, transmission(mod_r_p(ivk), to_term(by(field(dv, '0'), 11))))


def addr_parts(a):
    d = to_term(by(field(field(a, 'd'), '0'), 11))
    pk = to_term(field(field(field(a, 'pk_d'), '0'), '0'))
    return d, pk


def owns(ivk, a):
    """The address belongs to the viewing key: its transmission key is [ivk] of its diversified base."""
    d, pk = addr_parts(a)
    return M.geq(transmission(ka_scalar(field(ivk, 'ivk')), d), pk)


@contract('keys::IncomingViewingKey::diversifier_index', 'P11')
def _(c, s, addr):
    ivk, a = c.d(s), c.d(addr)
    i = ff1(field(field(ivk, 'dk'), '0'), by(field(field(a, 'd'), '0'), 11), True)
    return M.opt(c.rty, owns(ivk, a), A('zip32::DiversifierIndex', seqof(i, 11)))


@contract('keys::FullViewingKey::scope_for_address', 'P11 P05 P20')
def _(c, s, addr):
    a = c.d(addr)
    ak, nk, rivk = fvk_parts(c.d(s))
    t = ty('zip32::Scope')
    e, i = Adt(t, variant(t, 'External'), []), Adt(t, variant(t, 'Internal'), [])
    own = lambda r: owns(mk_ivk(ak, nk, r), a)
    return vite(own(rivk), c.some(e), vite(own(internal_rivk(ak, nk, rivk)), c.some(i), c.none()))


# ---------------------------------------------------------------- incoming viewing key encodings
@contract('keys::IncomingViewingKey::to_bytes', 'P12')
def _(c, s):
    return M.cat(by(field(c.f(s, 'dk'), '0')), frepr(ka_scalar(c.f(s, 'ivk')), 'Fq'))


@contract('keys::IncomingViewingKey::from_bytes', 'P12')
def _(c, bytes):
    b = c.seq(bytes)
    x, ok = M.f_from_repr(to_term(sl(b, 32, 64)), 'Fp')
    return ctopt(c, A(IVK, A(DK, sl(b, 0, 32)), ka(x)), and_(ok, not_(M.feq('Fp', x, tm.poly_const('Fp', 0)))))


def prep(x):
    t = ty('spec::PreparedNonZeroScalar')
    return Adt(t, 0, [Opq(uf('wnafs', (x,)), field_types(t, 0)[0])])


def prepb(x):
    t = ty('spec::PreparedNonIdentityBase')
    return Adt(t, 0, [Opq(uf('wnafb', (x,)), field_types(t, 0)[0])])


@contract('keys::PreparedIncomingViewingKey::new', 'P14 P15')
def _(c, ivk):
    return c.S(prep(ka_scalar(c.f(ivk, 'ivk'))))


@contract('keys::PreparedIncomingViewingKey::new_inner', 'P14 P11')
def _(c, ivk):
    return c.S(prep(ka_scalar(c.d(ivk))))


@contract('keys::IncomingViewingKey::prepare', 'P14 P15')
def _(c, s):
    return c.S(prep(ka_scalar(c.f(s, 'ivk'))))


# ---------------------------------------------------------------- key agreement
@contract('keys::DiversifiedTransmissionKey::from_bytes', 'P12 P13')
def _(c, b):
    p, ok = M.g_from_repr(c.t(b))
    return ctopt(c, A(DTK, nip(p)), and_(ok, not_(M.geq(p, M.g_zero()))))


@contract('keys::DiversifiedTransmissionKey::to_bytes', 'P12 P13')
def _(c, s):
    return grepr(c.t(c.f(c.f(s, '0'), '0')))


@contract('keys::EphemeralPublicKey::from_bytes', 'P12 P14')
def _(c, b):
    p, ok = M.g_from_repr(c.t(b))
    return ctopt(c, A(EPK, nip(p)), and_(ok, not_(M.geq(p, M.g_zero()))))


@contract('keys::EphemeralPublicKey::to_bytes', 'P12 P14')
def _(c, s):
    return c.S(grepr(c.t(c.f(c.f(s, '0'), '0'))))


@contract('keys::EphemeralSecretKey::from_bytes', 'P12 P13')
def _(c, b):
    x, ok = M.f_from_repr(c.t(b), 'Fq')
    return ctopt(c, A(ESK, nzs(x)), and_(ok, not_(M.feq('Fq', x, tm.poly_const('Fq', 0)))))


@contract('keys::EphemeralSecretKey::derive_public', 'P14')
def _(c, s, gd):
    return A(EPK, nip(M.g_mul(c.t(c.f(c.f(s, '0'), '0')), c.t(c.f(gd, '0')))))


@contract('keys::EphemeralSecretKey::agree', 'P14')
def _(c, s, pk):
    return c.S(nip(M.g_mul(c.t(c.f(c.f(s, '0'), '0')), c.t(c.f(c.f(pk, '0'), '0')))))


@contract('keys::EphemeralPublicKey::agree', 'P14')
def _(c, s, ivk):
    return c.S(nip(M.g_mul(ka_scalar(c.f(ivk, 'ivk')), c.t(c.f(c.f(s, '0'), '0')))))


@contract('keys::PreparedEphemeralPublicKey::new', 'P14')
def _(c, epk):
    return c.S(prepb(c.t(c.f(c.f(epk, '0'), '0'))))


@contract('keys::PreparedEphemeralPublicKey::agree', 'P14')
def _(c, s, ivk):
    return c.S(nip(M.g_mul(unwnaf(c.f(ivk, '0'), True), unwnaf(c.f(s, '0'), False))))


def kdf(point, epk):
    return M.blake2b(32, bytes_seq(b'Zcash_OrchardKDF'), M.cat(grepr(point), by(epk)))


@contract('keys::SharedSecret::kdf_orchard', 'P14')
def _(c, s, epk):
    return kdf(c.t(c.f(c.f(s, '0'), '0')), c.f(epk, '0'))


@contract('keys::SharedSecret::kdf_orchard_inner', 'P14')
def _(c, secret, epk):
    return kdf(c.t(secret), c.f(epk, '0'))


# ---------------------------------------------------------------- addresses
@contract('address::Address::from_parts', 'P11')
def _(c, d, pk):
    return c.S(c.d(d), c.d(pk))


@contract('address::Address::diversifier', 'P11')
def _(c, s):
    return c.f(s, 'd')


@contract('address::Address::g_d', 'P11 P07')
def _(c, s):
    return nip(diversify_hash(addr_parts(c.d(s))[0]))


@contract('address::Address::pk_d', 'P11 P07')
def _(c, s):
    return c.f(s, 'pk_d')


@contract('address::Address::to_raw_address_bytes', 'P11 P12')
def _(c, s):
    d, pk = addr_parts(c.d(s))
    return M.cat(seqof(d, 11), grepr(pk))


@contract('address::Address::from_raw_address_bytes', 'P11 P12')
def _(c, bytes):
    b = c.seq(bytes)
    p, ok = M.g_from_repr(to_term(sl(b, 11, 43)))
    return ctopt(c, A(ADDR, A(DIV, sl(b, 0, 11)), A(DTK, nip(p))), and_(ok, not_(M.geq(p, M.g_zero()))))
