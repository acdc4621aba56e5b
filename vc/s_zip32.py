"""Contracts on src/zip32.rs (ZIP 32, Orchard) and on SpendingKey::from_zip32_seed."""
from speclib import *
from s_keys import *
from s_builder import fvk_of, discr_of, is_some, some_of
from s_bundle import mkadt, at_first

Z = 'zip32::'
XSK, TAG, KIDX, CI, CC, FPR = Z + 'ExtendedSpendingKey', Z + 'FvkTag', Z + 'KeyIndex', Z + 'ChildIndex', Z + 'ChainCode', Z + 'FvkFingerprint'
XFIELDS = ['depth', 'parent_fvk_tag', 'child_index', 'chain_code', 'sk']


@M.model('zip32::<impl std::convert::From<zip32::AccountId> for u32>::from')
def _(ex, st, a, info):
    return project(ex.full_deref(a[0], st), 0, ty('u32'))


@invariant(CI)
def _(v):
    """Only hardened indices exist (zip32 crate)."""
    return [not_(ult(field(v, '0'), bvc(32, 1 << 31)))]


@invariant('zip32::AccountId')
def _(v):
    return [ult(field(v, '0'), bvc(32, 1 << 31))]


def valid_sk(b):
    """(spending key with these bytes, it is valid, its ask is not zero)"""
    v = A(SK, as_seq(b))
    nz = not_(M.feq('Fq', ask0(v), tm.poly_const('Fq', 0)))
    return v, and_(nz, both_ivks(ask_of(v)[1], nk_of(v), rivk_of(v))), nz


def key_index(i=None):
    t = field_types(ty(KIDX), 0)[0]
    if i is None:
        return A(KIDX, Adt(t, 0, [A(CI, bvc(32, 1 << 31)), FALSE]))
    return A(KIDX, Adt(t, 0, [i, TRUE]))


@contract(Z + 'FvkTag::master', 'P22')
def _(c):
    return A(TAG, bytes_seq(bytes(4)))


@contract('<zip32::FvkFingerprint as std::convert::From<&keys::FullViewingKey>>::from', 'P22')
def _(c, fvk):
    return A(FPR, fingerprint(c.d(fvk)))


def fingerprint(fvk):
    ak, nk, rivk = fvk_parts(fvk)
    return M.blake2b(32, bytes_seq(b'ZcashOrchardFVFP'), M.cat(grepr(ak), frepr(nk, 'Fp'), frepr(rivk, 'Fq')))


@contract(Z + 'FvkFingerprint::tag', 'P22')
def _(c, s):
    return A(TAG, Seq([('lit', as_seq(c.f(s, '0')).concrete()[:4])], ty('u8')))


@contract(Z + 'KeyIndex::master', 'P22')
def _(c):
    return key_index()


@contract(Z + 'KeyIndex::child', 'P22')
def _(c, i):
    return key_index(c.d(i))


def opt_of(v):
    v = v if isinstance(v, Adt) else None
    return v


@contract(Z + 'KeyIndex::new', 'P22')
def _(c, depth, i):
    z = eq(depth, bvc(8, 0))
    m = and_(z, eq(i, bvc(32, 0)))
    ch = and_(not_(z), not_(ult(i, bvc(32, 1 << 31))))
    return vite(m, c.some(key_index()), vite(ch, c.some(key_index(A(CI, i))), c.none()))


@contract(Z + 'KeyIndex::index', 'P22')
def _(c, s):
    o = c.f(s, '0')
    return ite(project(o, 1, ty('bool'), 0), field(project(o, 0, ty(CI), 0), '0'), bvc(32, 0))


# -- derivation ----------------------------------------------------------------------------
def split(I):
    b = as_seq(I).concrete()
    return Seq([('lit', b[:32])], ty('u8')), Seq([('lit', b[32:])], ty('u8'))


def master(c, seed):
    """(master key, valid, ask not zero)"""
    l, r = split(M.blake2b(64, bytes_seq(b'ZcashIP32Orchard'), c.seq(seed)))
    sk, ok, nz = valid_sk(l)
    return mkadt(ty(XSK), dict(depth=bvc(8, 0), parent_fvk_tag=A(TAG, bytes_seq(bytes(4))), child_index=key_index(), chain_code=A(CC, r), sk=sk)), ok, nz


def child(c, x, i):
    idx = field(i, '0')
    le = Seq([('lit', [extract(8 * j + 7, 8 * j, idx) for j in range(4)])], ty('u8'))
    cc = as_seq(field(field(x, 'chain_code'), '0'))
    l, r = split(M.prf_expand(cc, bvc(8, 0x81), M.cat(sk_bytes(field(x, 'sk')), le)))
    sk, ok, nz = valid_sk(l)
    tag = A(TAG, Seq([('lit', as_seq(fingerprint(fvk_of(field(x, 'sk')))).concrete()[:4])], ty('u8')))
    return mkadt(ty(XSK), dict(depth=bvadd(field(x, 'depth'), bvc(8, 1)), parent_fvk_tag=tag, child_index=key_index(i), chain_code=A(CC, r), sk=sk)), ok, nz


def zerr(c, name):
    e = TY[c.rty]['a'][1]
    return c.err(Adt(e, variant(e, name), []))


def seed_len_ok(c, seed):
    n = seq_len(c.seq(seed))
    return and_(ule(bvc(64, 32), n), ule(n, bvc(64, 252)))


NOTE_ = 'panics for a seed length outside 32..252 as documented, and may panic for ask = 0 as keys::SpendingKey::from_bytes does'


def opaque(op):
    def f(c, *a):
        return from_term(uf(op, tuple(to_term(c.seq(x)) if isinstance(c.d(x), Seq) or op == 'zip32_master' else to_term(c.deep(c.d(x))) for x in a)), c.rty)
    return f


@contract(Z + 'ExtendedSpendingKey::master', 'P22', cost=2, opaque=opaque('zip32_master'), note=NOTE_,
          panics=lambda c, seed: or_(not_(seed_len_ok(c, seed)), not_(master(c, seed)[2])))
def _(c, seed):
    x, ok, _ = master(c, seed)
    return vite(ok, c.ok(x), zerr(c, 'InvalidSpendingKey'))


@contract(Z + 'ExtendedSpendingKey::derive_child', 'P22', cost=3, opaque=opaque('zip32_child'),
          panics=lambda c, s, i: or_(eq(c.f(s, 'depth'), bvc(8, 255)), not_(child(c, c.d(s), c.d(i))[2])),
          note='panics at depth 255 (a path of more than 255 indices), and may panic for ask = 0 as keys::SpendingKey::from_bytes does')
def _(c, s, i):
    x, ok, _ = child(c, c.d(s), c.d(i))
    return vite(ok, c.ok(x), zerr(c, 'InvalidSpendingKey'))


good = lambda t: eq(smart('discr', (t,), 64), bvc(64, 0))
okf = lambda t: smart('fld', (t,), 'U', ('std::result::Result', 0, 0))


@contract(Z + 'ExtendedSpendingKey::from_path', 'P22', kind='post', havoc=opaque('zip32_path'),
          maypanic=('panic condition of zip32::ExtendedSpendingKey::',), note=NOTE_)
def _(c, args, ret):
    r, path = c.deep(ret), c.seq(args[1])
    m = uf('zip32_master', (to_term(c.seq(args[0])),))
    xt = ty(XSK)
    step = lambda acc, i: uf('zip32_child', (to_term(acc), to_term(i)))
    F = lambda j: c.fold(prefix(path, j), from_term(okf(m), xt), lambda st, acc, i: from_term(okf(step(acc, i)), xt), xt)
    fx = [x for x in c_subterms(and_(*c.st.pc)) if x.op == 'first']
    n = seq_len(path)
    if isinstance(r, Adt) and r.var == 0:
        k = fresh('i', 64)
        c.st.add(ult(k, n))
        at_first(c, k)
        d = smart('discr', (step(F(k), seq_at(path, k)),), 64)
        c.st.add(or_(eq(d, bvc(64, 0)), eq(d, bvc(64, 1))))
        return [('the master key is valid', good(m)), ('each index is derived in turn', to_term(r.fs[0]), to_term(F(n))), ('each is valid', good(step(F(k), seq_at(path, k))))]
    e = to_term(r.fs[0]) if isinstance(r, Adt) else smart('fld', (to_term(r),), 'U', ('std::result::Result', 1, 0))
    er = lambda t: smart('fld', (t,), 'U', ('std::result::Result', 1, 0))
    if not fx:
        return [('the master key is invalid', not_(good(m))), ('its error is reported', e, er(m))]
    t = step(F(fx[0]), seq_at(path, fx[0]))
    return [('an index of the path', ult(fx[0], n)), ('its key is invalid', not_(good(t))), ('its error is reported', e, er(t))]


def c_subterms(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x not in seen:
            seen.add(x)
            stack.extend(x.args)
            yield x


def prefix(s, j):
    x = fresh('k', 64)
    return Seq([('lam', j, x, seq_at(s, x))], s.ety)


@contract('keys::SpendingKey::from_zip32_seed', 'P22 P10', kind='post')
def _(c, args, ret):
    r, coin = c.deep(ret), args[1]
    h = lambda i: A(CI, bvor(i, bvc(32, 1 << 31)))
    acct = field(c.d(args[2]), '0')
    path = Seq([('lit', [h(bvc(32, 32)), h(coin), h(acct)])], ty(CI))
    t = uf('zip32_path', (to_term(c.seq(args[0])), to_term(path)))
    big = not_(ult(coin, bvc(32, 1 << 31)))
    et = TY[TY_of(c)]['a'][1]
    ok = and_(not_(big), good(t))
    want = vite(big, Adt(c.rty, 1, [Adt(et, variant(et, 'InvalidChildIndex'), [coin])]),
                vite(good(t), Adt(c.rty, 0, [field(from_term(okf(t), ty(XSK)), 'sk')]), Adt(c.rty, 1, [from_term(smart('fld', (t,), 'U', ('std::result::Result', 1, 0)), et)])))
    return [('the account key, or the error', r, want)]


def TY_of(c):
    return c.rty


@contract(Z + 'ExtendedSpendingKey::sk', 'P22')
def _(c, s):
    return c.f(s, 'sk')


@contract('<keys::FullViewingKey as std::convert::From<&zip32::ExtendedSpendingKey>>::from', 'P22 P10')
def _(c, s):
    return fvk_of(c.f(s, 'sk'))
