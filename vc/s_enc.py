"""Contracts on src/note_encryption.rs."""
from speclib import *
from s_spec import *
from s_keys import *
from s_note import *

DOM, CA = 'note_encryption::OrchardDomain', 'note_encryption::CompactAction'
D = '<note_encryption::OrchardDomain as zcash_note_encryption::Domain>::'
EKB = 'zcash_note_encryption::EphemeralKeyBytes'


def bytes_of(c, v, n=32):
    """Bytes of a newtype around an array."""
    return by(field(c.d(v), '0'), n)


def ock(c, ovk, cv, cmx, ek):
    return M.blake2b(32, bytes_seq(b'Zcash_Orchardock'), M.cat(bytes_of(c, ovk), grepr(c.t(c.f(cv, '0'))), c.seq(cmx), bytes_of(c, ek)))


@contract('note_encryption::prf_ock_orchard', 'P14')
def _(c, ovk, cv, cmx, ek):
    return c.S(ock(c, ovk, cv, cmx, ek))


@contract(D + 'derive_ock', 'P14')
def _(c, ovk, cv, cmx, ek):
    return c.S(ock(c, ovk, cv, cmx, ek))


def le64(s):
    b = as_seq(s).concrete()
    r = b[0]
    for x in b[1:]:
        r = concat(x, r)
    return r


def parse(c, dom, pt, pkd):
    """The note of a plaintext, the address, and whether the plaintext is valid. pt: at least 52 bytes."""
    d = A(DIV, sl(pt, 1, 12))
    dt = to_term(d.fs[0])
    rho = field(dom, 'rho')
    rs = A(RSEED, sl(pt, 20, 52))
    addr = A(ADDR, d, pkd(dt))
    n = A(NOTE, addr, A(NV, le64(sl(pt, 12, 20))), rho, rs)
    ok = and_(eq(seq_at(pt, bvc(64, 0)), bvc(8, 2)), nz('Fq', esk_of(rs, rho)), note_cm(n)[1])
    return M.opt(c.rty, ok, Tup([n, addr]))


def short(c, s, ivk, pt):
    return ult(seq_len(c.seq(pt)), bvc(64, 52))


@contract(D + 'parse_note_plaintext_without_memo_ivk', 'P13', panics=short, note='the caller passes at least the 52 bytes of a compact plaintext')
def _(c, s, ivk, pt):
    x = unwnaf(c.f(ivk, '0'), True)
    return parse(c, c.d(s), c.seq(pt), lambda d: A(DTK, nip(transmission(x, d))))


@contract(D + 'parse_note_plaintext_without_memo_ovk', 'P13')
def _(c, s, pkd, pt):
    v = c.d(pkd)
    return parse(c, c.d(s), bytes_of(c, pt, 564), lambda d: v)


@contract(D + 'derive_esk', 'P13 P14', panics=lambda c, n: not_(nz('Fq', esk_of(c.f(n, 'rseed'), c.f(n, 'rho')))))
def _(c, n):
    return c.some(A(ESK, nzs(esk_of(c.f(n, 'rseed'), c.f(n, 'rho')))))


@contract(D + 'get_pk_d', 'P13 P14')
def _(c, n):
    return c.f(c.f(n, 'recipient'), 'pk_d')


@contract(D + 'prepare_epk', 'P14')
def _(c, e):
    return c.S(prepb(c.t(c.f(c.f(e, '0'), '0'))))


@contract(D + 'ka_derive_public', 'P14')
def _(c, n, e):
    d = addr_parts(c.f(n, 'recipient'))[0]
    return A(EPK, nip(M.g_mul(c.t(c.f(c.f(e, '0'), '0')), diversify_hash(d))))


@contract(D + 'ka_agree_enc', 'P14')
def _(c, e, pk):
    return c.S(nip(M.g_mul(c.t(c.f(c.f(e, '0'), '0')), c.t(c.f(c.f(pk, '0'), '0')))))


@contract(D + 'ka_agree_dec', 'P14')
def _(c, ivk, e):
    return c.S(nip(M.g_mul(unwnaf(c.f(ivk, '0'), True), unwnaf(c.f(e, '0'), False))))


@contract(D + 'kdf', 'P14')
def _(c, s, ek):
    return kdf(c.t(c.f(c.f(s, '0'), '0')), c.f(ek, '0'))


def u64le(t):
    return Seq([('lit', [extract(8 * i + 7, 8 * i, t) for i in range(8)])], ty('u8'))


@contract(D + 'note_plaintext_bytes', 'P13')
def _(c, n, memo):
    v = c.d(n)
    d = addr_parts(field(v, 'recipient'))[0]
    return c.S(M.cat(bytes_seq(b'\x02'), seqof(d, 11), u64le(to_term(field(field(v, 'value'), '0'))), by(field(field(v, 'rseed'), '0')), by(c.d(memo), 512)))


@contract(D + 'outgoing_plaintext_bytes', 'P13')
def _(c, n, e):
    pk = addr_parts(c.f(n, 'recipient'))[1]
    return c.S(M.cat(grepr(pk), frepr(c.t(c.f(c.f(e, '0'), '0')), 'Fq')))


@contract(D + 'epk_bytes', 'P13 P14')
def _(c, e):
    return c.S(grepr(c.t(c.f(c.f(e, '0'), '0'))))


@contract(D + 'epk', 'P13 P14')
def _(c, ek):
    p, ok = M.g_from_repr(to_term(bytes_of(c, ek)))
    return M.opt(c.rty, and_(ok, not_(M.geq(p, M.g_zero()))), A(EPK, nip(p)))


@contract(D + 'cmstar', 'P13')
def _(c, n):
    return A(ECM, M.fval(note_cmx(c.d(n)), 'Fp'))


@contract(D + 'extract_memo', 'P13')
def _(c, s, pt):
    return sl(bytes_of(c, pt, 564), 52, 564)


@contract(D + 'extract_pk_d', 'P13')
def _(c, o):
    p, ok = M.g_from_repr(to_term(sl(bytes_of(c, o, 64), 0, 32)))
    return M.opt(c.rty, and_(ok, not_(M.geq(p, M.g_zero()))), A(DTK, nip(p)))


@contract(D + 'extract_esk', 'P13')
def _(c, o):
    x, ok = M.f_from_repr(to_term(sl(bytes_of(c, o, 64), 32, 64)), 'Fq')
    return M.opt(c.rty, and_(ok, nz('Fq', x)), A(ESK, nzs(x)))


@contract('note_encryption::OrchardDomain::for_action', 'P13 P15')
def _(c, a):
    return c.S(A(RHO, field(c.f(a, 'nf'), '0')))


@contract('note_encryption::OrchardDomain::for_compact_action', 'P13 P15')
def _(c, a):
    return c.S(A(RHO, field(c.f(a, 'nullifier'), '0')))


SO = 'zcash_note_encryption::ShieldedOutput<note_encryption::OrchardDomain, '
ACT = 'note_encryption::<impl %sENC_CIPHERTEXT_SIZE> for action::Action<T>>::' % SO
CAS = '<%s as %sCOMPACT_NOTE_SIZE>>::' % (CA, SO)


@contract(ACT + 'ephemeral_key', 'P13 P15')
def _(c, a):
    return c.S(field(c.f(a, 'encrypted_note'), 'epk_bytes'))


@contract(ACT + 'cmstar_bytes', 'P13 P15')
def _(c, a):
    return frepr(c.t(c.f(c.f(a, 'cmx'), '0')), 'Fp')


@contract(ACT + 'enc_ciphertext', 'P13 P15')
def _(c, a):
    return RefV(field(c.f(a, 'encrypted_note'), 'enc_ciphertext'))


@contract(CAS + 'ephemeral_key', 'P13 P15')
def _(c, a):
    return c.f(a, 'ephemeral_key')


@contract(CAS + 'cmstar_bytes', 'P13 P15')
def _(c, a):
    return frepr(c.t(c.f(c.f(a, 'cmx'), '0')), 'Fp')


@contract(CAS + 'enc_ciphertext', 'P13 P15')
def _(c, a):
    return RefV(c.f(a, 'enc_ciphertext'))


@contract('<note_encryption::CompactAction as std::convert::From<&action::Action<T>>>::from', 'P13 P15')
def _(c, a):
    e = c.f(a, 'encrypted_note')
    return c.S(c.f(a, 'nf'), c.f(a, 'cmx'), A(EKB, field(e, 'epk_bytes')), sl(by(field(e, 'enc_ciphertext'), 580), 0, 52))


@contract('note_encryption::CompactAction::from_parts', 'P13')
def _(c, *a):
    return c.S(*[c.d(x) for x in a])


@contract('note_encryption::CompactAction::nullifier', 'P13')
def _(c, s):
    return c.f(s, 'nullifier')


@contract('note_encryption::CompactAction::cmx', 'P13')
def _(c, s):
    return c.f(s, 'cmx')


@contract('note_encryption::CompactAction::rho', 'P13')
def _(c, s):
    return A(RHO, field(c.f(s, 'nullifier'), '0'))


@contract('<note_encryption::OrchardDomain as zcash_note_encryption::BatchDomain>::batch_kdf', 'P14')
def _(c, items):
    """The key of each item on its own, at its position."""
    s = c.iter(items)
    t = c.rty
    opt = TY[t]['a'][0]

    def one(x):
        sec, ek = c.d(project(x, 0, None)), c.d(project(x, 1, None))
        some = not_(eq(c.ex.discr(sec, 64, c.st), bvc(64, 0)))
        if isinstance(sec, Opq) and sec.ty is None:
            sec = from_term(sec.t, ty('std::option::Option<keys::SharedSecret>'))
        if isinstance(ek, Opq) and ek.ty is None:
            ek = from_term(ek.t, ty(EKB))
        p = to_term(field(field(project(sec, 0, ty('keys::SharedSecret'), 1), '0'), '0'))
        return vite(some, Adt(opt, 1, [kdf(p, field(ek, '0'))]), Adt(opt, 0, []))
    return seq_map(s, one)
