"""Contracts on src/note.rs, src/note/commitment.rs and src/note/nullifier.rs."""
from speclib import *
from s_spec import *
from s_keys import *

NOTE, RHO, RSEED = 'note::Note', 'note::Rho', 'note::RandomSeed'
NF, NCM, ECM, RCM = 'note::nullifier::Nullifier', 'note::commitment::NoteCommitment', 'note::commitment::ExtractedNoteCommitment', 'note::commitment::NoteCommitTrapdoor'
NV = 'value::NoteValue'


def rho_x(v):
    return to_term(field(v, '0'))


def expand(rseed, rho, dom):
    """PRF^expand_rseed([dom] || rho)."""
    return prf(by(field(rseed, '0')), dom, frepr(rho_x(rho), 'Fp'))


def psi_of(rseed, rho):
    return wide('Fp', expand(rseed, rho, D_PSI))


def rcm_of(rseed, rho):
    return wide('Fq', expand(rseed, rho, D_RCM))


def esk_of(rseed, rho):
    return wide('Fq', expand(rseed, rho, D_ESK))


def bits_of_bytes(s):
    return Seq([('lit', [q for b in as_seq(s).concrete() for q in M.byte_bits(b)])], ty('bool'))


def note_commit(gd_bytes, pkd_bytes, v64, rho, psi, rcm):
    """NoteCommit^Orchard: (point, defined)."""
    dom = uf('sinsemilla', (M.str_term('z.cash:Orchard-NoteCommit'),), 'U', 'CommitDomain')
    vb = Seq([('lit', [eq(extract(i, i, v64), bvc(1, 1)) for i in range(64)])], ty('bool'))
    bits = to_term(M.cat(bits_of_bytes(gd_bytes), bits_of_bytes(pkd_bytes), vb, fbits(None, rho), fbits(None, psi)))
    r = M.sinsemilla_commit(None, dom, bits, rcm, False)
    return to_term(r.fs[0]), r.fs[1]


def note_cm(n):
    rec, rho, rs = field(n, 'recipient'), field(n, 'rho'), field(n, 'rseed')
    d, pk = addr_parts(rec)
    return note_commit(grepr(diversify_hash(d)), grepr(pk), field(field(n, 'value'), '0'), rho_x(rho), psi_of(rs, rho), rcm_of(rs, rho))


@invariant(NOTE)
def _(v):
    return [note_cm(v)[1]]


def zero(f):
    return tm.poly_const(f, 0)


def nz(f, x):
    return not_(M.feq(f, x, zero(f)))


def base(c, v):
    return M.fval(v, 'Fp')


@contract('note::Rho::from_bytes', 'P12 P07')
def _(c, b):
    x, ok = M.f_from_repr(c.t(b), 'Fp')
    return ctopt(c, A(RHO, base(c, x)), ok)


@contract('note::Rho::to_bytes', 'P12 P07')
def _(c, s):
    return frepr(c.t(c.f(s, '0')), 'Fp')


@contract('note::Rho::from_nf_old', 'P04 P07')
def _(c, nf):
    return c.S(c.f(nf, '0'))


@contract('note::Rho::into_inner', 'P04 P07')
def _(c, s):
    return c.f(s, '0')


@contract('note::RandomSeed::from_bytes', 'P07 P13')
def _(c, b, rho):
    rs = A(RSEED, c.d(b))
    return ctopt(c, rs, nz('Fq', esk_of(rs, c.d(rho))))


@contract('note::RandomSeed::as_bytes', 'P12 P13')
def _(c, s):
    return c.f(s, '0')


@contract('note::RandomSeed::psi', 'P07 P08')
def _(c, s, rho):
    return M.fval(psi_of(c.d(s), c.d(rho)), 'Fp')


@contract('note::RandomSeed::rcm', 'P07')
def _(c, s, rho):
    return A(RCM, M.fval(rcm_of(c.d(s), c.d(rho)), 'Fq'))


@contract('note::RandomSeed::esk_inner', 'P07')
def _(c, s, rho):
    x = esk_of(c.d(s), c.d(rho))
    return ctopt(c, nzs(x), nz('Fq', x))


def esk_zero(c, s, rho):
    return not_(nz('Fq', esk_of(c.d(s), c.d(rho))))


@contract('note::RandomSeed::esk', 'P07 P14', panics=esk_zero, note='panics when the seed gives a zero ephemeral secret for this rho, which seeds made for the same rho exclude')
def _(c, s, rho):
    return nzs(esk_of(c.d(s), c.d(rho)))


def rand_seed(c, rng, rho):
    return from_term(uf('rand_rseed', (M.rng_draw(c.ex, c.st, rng, 'rseed', (c.t(rho),)),)), ty(RSEED))


def rand_seed_havoc(c, rng, rho):
    r = rand_seed(c, rng, rho)
    c.st.add(nz('Fq', esk_of(r, c.d(rho))))
    return r


@contract('note::RandomSeed::random', 'P07', kind='post', havoc=rand_seed_havoc)
def _(c, args, ret):
    rs = c.d(ret)
    return [('the seed gives a nonzero ephemeral secret', nz('Fq', esk_of(rs, c.d(args[1]))))]


@contract('note::commitment::NoteCommitment::derive', 'P07')
def _(c, gd, pkd, v, rho, psi, rcm):
    p, ok = note_commit(c.seq(gd), c.seq(pkd), c.f(v, '0'), c.t(rho), c.t(psi), c.t(c.f(rcm, '0')))
    return ctopt(c, A(NCM, M.gval(p)), ok)


@contract('note::commitment::NoteCommitment::inner', 'P05 P07')
def _(c, s):
    return c.f(s, '0')


@contract('note::commitment::NoteCommitTrapdoor::inner', 'P05 P07')
def _(c, s):
    return c.f(s, '0')


@contract('note::Note::commitment_inner', 'P07', noinv=(NOTE,))
def _(c, s):
    p, ok = note_cm(c.d(s))
    return ctopt(c, A(NCM, M.gval(p)), ok)


@contract('note::Note::commitment', 'P07 P08')
def _(c, s):
    return A(NCM, M.gval(note_cm(c.d(s))[0]))


@contract('note::Note::from_parts', 'P07 P13')
def _(c, rec, v, rho, rs):
    n = A(NOTE, c.d(rec), c.d(v), c.d(rho), c.d(rs))
    return ctopt(c, n, note_cm(n)[1])


for _n, _f in (('recipient', 'recipient'), ('value', 'value'), ('rho', 'rho'), ('rseed', 'rseed')):
    def _reg(f):
        @contract('note::Note::' + f, 'P07 P13')
        def _(c, s):
            return c.f(s, f)
    _reg(_n)


@contract('note::Note::esk', 'P07 P14', panics=lambda c, s: not_(nz('Fq', esk_of(c.f(s, 'rseed'), c.f(s, 'rho')))),
          note='panics when the seed was validated against another rho and gives a zero ephemeral secret for this one')
def _(c, s):
    return A(ESK, nzs(esk_of(c.f(s, 'rseed'), c.f(s, 'rho'))))


def nf_of(nk, rho, psi, cm):
    k = uf('h2c', (M.str_term('z.cash:Orchard'), to_term(bytes_seq(b'K'))))
    s = mod_r_p(tm.poly_add('Fp', prf_nf_(nk, rho), psi))
    return xp(M.g_add(M.g_mul(s, k), cm))


@contract('note::nullifier::Nullifier::derive', 'P08')
def _(c, nk, rho, psi, cm):
    return A(NF, M.fval(nf_of(c.t(c.f(nk, '0')), c.t(rho), c.t(psi), c.t(c.f(cm, '0'))), 'Fp'))


def note_nf(n, fvk):
    rho, rs = field(n, 'rho'), field(n, 'rseed')
    return nf_of(fvk_parts(fvk)[1], rho_x(rho), psi_of(rs, rho), note_cm(n)[0])


@contract('note::Note::nullifier', 'P08 P04')
def _(c, s, fvk):
    return A(NF, M.fval(note_nf(c.d(s), c.d(fvk)), 'Fp'))


def note_cmx(n):
    return xp(note_cm(n)[0])


@contract('<note::commitment::ExtractedNoteCommitment as std::convert::From<note::commitment::NoteCommitment>>::from', 'P07')
def _(c, cm):
    return A(ECM, M.fval(xp(c.t(c.f(cm, '0'))), 'Fp'))


@contract('<note::Note as std::cmp::PartialEq>::eq', 'P07')
def _(c, a, b):
    return M.feq('Fp', note_cmx(c.d(a)), note_cmx(c.d(b)))


for _t, _p in ((ECM, 'P12 P07'), (NF, 'P12 P08')):
    def _reg2(t):
        @contract(t + '::from_bytes', _p)
        def _(c, b):
            x, ok = M.f_from_repr(c.t(b), 'Fp')
            return ctopt(c, A(t, M.fval(x, 'Fp')), ok)

        @contract(t + '::to_bytes', _p)
        def _(c, s):
            return frepr(c.t(c.f(s, '0')), 'Fp')

        @contract('<%s as std::cmp::PartialEq>::eq' % t, _p)
        def _(c, a, b):
            return M.feq('Fp', c.t(c.f(a, '0')), c.t(c.f(b, '0')))

        @contract('<%s as subtle::ConstantTimeEq>::ct_eq' % t, _p)
        def _(c, a, b):
            return M.feq('Fp', c.t(c.f(a, '0')), c.t(c.f(b, '0')))
    _reg2(_t)


@contract('note::commitment::<impl std::convert::From<&note::commitment::ExtractedNoteCommitment> for [u8; 32]>::from', 'P12 P14')
def _(c, s):
    return frepr(c.t(c.f(s, '0')), 'Fp')


@contract('note::commitment::ExtractedNoteCommitment::inner', 'P06 P07')
def _(c, s):
    return c.f(s, '0')


# ---------------------------------------------------------------- random keys and notes
def rand_sk(c, rng):
    return from_term(uf('rand_sk', (M.rng_draw(c.ex, c.st, rng, 'sk'),)), ty(SK))


@contract('keys::SpendingKey::random', 'P10', kind='post', havoc=rand_sk, maypanic=True, note='terminates only when a valid key is drawn; may panic for ask = 0 as keys::SpendingKey::from_bytes does')
def _(c, args, ret):
    v = c.d(ret)
    return [('the key is valid', and_(nz('Fq', ask0(v)), both_ivks(ask_of(v)[1], nk_of(v), rivk_of(v))))]


@contract('note::nullifier::Nullifier::dummy', 'P08', kind='post', havoc=lambda c, rng: from_term(uf('rand_nf', (M.rng_draw(c.ex, c.st, rng, 'nf'),)), ty(NF)))
def _(c, args, ret):
    return [('a field element', TRUE)]


def new_havoc(c, rec, v, rho, rng):
    rs = rand_seed_havoc(c, rng, rho)
    n = A(NOTE, c.d(rec), c.d(v), c.d(rho), rs)
    c.st.add(note_cm(n)[1])
    return n


@contract('note::Note::new', 'P07 P04', kind='post', havoc=new_havoc)
def _(c, args, ret):
    n = c.d(ret)
    return [('recipient', field(n, 'recipient'), c.d(args[0])), ('value', field(n, 'value'), c.d(args[1])), ('rho', field(n, 'rho'), c.d(args[2])),
            ('the commitment is defined', note_cm(n)[1]),
            ('the ephemeral secret is not zero', nz('Fq', esk_of(field(n, 'rseed'), field(n, 'rho'))))]


def dummy_havoc(c, rng, rho):
    sk = rand_sk(c, rng)
    fvk = mk_fvk(ask_of(sk)[1], nk_of(sk), rivk_of(sk))
    rec = addr_at(mk_ivk(*fvk_parts(fvk)), bytes_seq(bytes(11)))
    o = c.d(rho)
    r0 = from_term(uf('rand_nf', (M.rng_draw(c.ex, c.st, rng, 'nf'),)), ty(NF))
    some = is_variant(c, o, 1)
    r0 = A(RHO, field(r0, '0'))
    rv = r0 if some is FALSE else vite(some, project(o, 0, ty(RHO), 1), r0)
    rs = rand_seed(c, rng, rv)
    c.st.add(nz('Fq', esk_of(rs, rv)))
    n = A(NOTE, rec, A(NV, bvc(64, 0)), rv, rs)
    c.st.add(note_cm(n)[1])
    return Tup([sk, fvk, n])


@contract('note::Note::dummy', 'P07 P20', kind='post', havoc=dummy_havoc)
def _(c, args, ret):
    t = c.d(ret)
    sk, fvk, n = (c.d(x) for x in t.fs)
    want = mk_fvk(ask_of(sk)[1], nk_of(sk), rivk_of(sk))
    rec = addr_at(mk_ivk(*fvk_parts(want)), bytes_seq(bytes(11)))
    o = c.d(args[1])
    some = is_variant(c, o, 1)
    return [('viewing key of the spending key', fvk, want), ('value is zero', field(n, 'value'), A(NV, bvc(64, 0))),
            ('recipient is the default address of the key', field(n, 'recipient'), rec),
            ('rho as requested', implies(some, M.feq('Fp', rho_x(field(n, 'rho')), to_term(field(project(o, 0, ty(RHO), 1), '0'))))),
            ('the commitment is defined', note_cm(n)[1])]
