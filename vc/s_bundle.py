"""Contracts on src/action.rs, src/bundle.rs and src/bundle/commitments.rs."""
from speclib import *
from s_spec import *
from s_value import VC, VS, cv_point
from s_keys import *
from s_note import *
from s_tree import ANCHOR
from s_enc import DOM, u64le

ACTION, FLAGS, BUNDLE = 'action::Action', 'bundle::Flags', 'bundle::Bundle'
ACTION_FIELDS = ('nf', 'rk', 'cmx', 'encrypted_note', 'cv_net', 'authorization')
PROOF, INSTANCE = 'circuit::Proof', 'circuit::Instance'
A_ = 'action::Action::<T>::'
B_ = 'bundle::Bundle::<T, V>::'
NONEMPTY = 'nonempty::NonEmpty'


@invariant(NONEMPTY)
def _(v):
    return [not_(eq(seq_len(as_seq(v)), bvc(64, 0)))]


# -- actions --------------------------------------------------------------------
for _n, _f in (('nullifier', 'nf'), ('rk', 'rk'), ('cmx', 'cmx'), ('encrypted_note', 'encrypted_note'), ('cv_net', 'cv_net'), ('authorization', 'authorization')):
    @contract(A_ + _n, 'P04 P12' + (' P17 P18' if _n == 'authorization' else ''))
    def _(c, s, f=_f):
        return RefV(c.f(s, f))


@contract(A_ + 'from_parts', 'P04 P12')
def _(c, *a):
    return mkadt(c.rty, dict(zip(ACTION_FIELDS, [c.d(x) for x in a])))


def mkadt(t, fs):
    """A struct value from fields by name."""
    names = ADTS[TY[t]['p']]['v'][0]['f']
    if set(names) != set(fs):
        raise Lost('fields of %s' % TY[t]['s'])
    return Adt(t, 0, [fs[n] for n in names])


@contract(A_ + 'rho', 'P04')
def _(c, s):
    return A(RHO, field(c.f(s, 'nf'), '0'))


def pre(c, ref):
    """The value behind a mutable reference before the call."""
    return c.ex.full_deref(ref, c.st0)


def keep(a, b, but, what, lab=''):
    """All the fields of b but one are those of a."""
    return [('%s%s is kept' % (lab, f), field(b, f), field(a, f)) for f in what if f != but]


def one_call(v, f, args, what):
    """v is the result of one call of the caller-supplied function f on exactly these arguments."""
    t = to_term(v)
    if t.op != 'callv' or t.args[0] is not to_term(f) or len(t.args) != 1 + len(args):
        return [(what, v, Opq(uf('callv', (to_term(f),) + tuple(to_term(a) for a in args), t.sort), tyof(v)))]
    return [(what + ' (argument %d)' % i, Opq(x, None) if x.sort == 'U' else x, to_term(a)) for i, (x, a) in enumerate(zip(t.args[1:], args))]


@contract(A_ + 'map', 'P18', kind='post', skip_apply=True)
def _(c, args, ret):
    a, r = c.d(args[0]), c.deep(ret)
    return keep(a, r, 'authorization', ACTION_FIELDS) + one_call(field(r, 'authorization'), c.d(args[1]), [field(a, 'authorization')], 'the authorization is mapped')


@contract(A_ + 'try_map', 'P18', kind='post', skip_apply=True)
def _(c, args, ret):
    a, r = c.d(args[0]), c.deep(ret)
    f = c.d(args[1])
    et = TY[c.rty]['a']
    step = Opq(uf('callv', (to_term(f), to_term(field(a, 'authorization')))), None)
    d = smart('discr', (step.t,), 64)
    if isinstance(r, Adt) and r.var == 0:
        b = r.fs[0]
        return keep(a, b, 'authorization', ACTION_FIELDS) + [('succeeds only if the step does', eq(d, bvc(64, 0))), ('the authorization is mapped', to_term(field(b, 'authorization')), smart('fld', (step.t,), sort_of(tyof(field(b, 'authorization'))), ('std::result::Result', 0, 0)))]
    return [('fails only if the step does', eq(d, bvc(64, 1)))]


# -- flags ----------------------------------------------------------------------
@contract('bundle::Flags::from_parts', 'P12 P20')
def _(c, s, o):
    return mkadt(c.rty, dict(spends_enabled=s, outputs_enabled=o))


for _n in ('spends_enabled', 'outputs_enabled'):
    @contract('bundle::Flags::' + _n, 'P06 P12 P20')
    def _(c, s, n=_n):
        return c.f(s, n)


def flags_byte(fl):
    b = lambda n: bv_of_bool(field(fl, n), 8)
    return concat(bvc(6, 0), concat(extract(0, 0, b('outputs_enabled')), extract(0, 0, b('spends_enabled'))))


@contract('bundle::Flags::to_byte', 'P12 P16')
def _(c, s):
    return flags_byte(c.d(s))


@contract('bundle::Flags::from_byte', 'P12')
def _(c, v):
    bit = lambda i: eq(extract(i, i, v), bvc(1, 1))
    return M.opt(c.rty, eq(extract(7, 2, v), bvc(6, 0)), mkadt(ty(FLAGS), dict(spends_enabled=bit(0), outputs_enabled=bit(1))))


@contract('<bundle::Flags as std::cmp::PartialEq>::eq', 'P12')
def _(c, a, b):
    return and_(*[eq(c.f(a, n), c.f(b, n)) for n in ('spends_enabled', 'outputs_enabled')])


# -- bundles --------------------------------------------------------------------
BUNDLE_FIELDS = ('actions', 'flags', 'value_balance', 'anchor', 'authorization')
for _n in BUNDLE_FIELDS:
    @contract(B_ + _n, 'P16' if _n != 'authorization' else 'P17 P18')
    def _(c, s, n=_n):
        return RefV(c.f(s, n))


@contract(B_ + 'from_parts', 'P16 P20')
def _(c, *a):
    return mkadt(c.rty, dict(zip(BUNDLE_FIELDS, [c.d(x) for x in a])))


@contract(B_ + 'try_map_value_balance', 'P02 P18', kind='post', skip_apply=True)
def _(c, args, ret):
    a, r = c.d(args[0]), c.deep(ret)
    f = c.d(args[1])
    step = uf('callv', (to_term(f), to_term(field(a, 'value_balance'))))
    d = smart('discr', (step,), 64)
    if isinstance(r, Adt) and r.var == 0:
        b = r.fs[0]
        nv = field(b, 'value_balance')
        return keep(a, b, 'value_balance', BUNDLE_FIELDS) + [('succeeds only if the step does', eq(d, bvc(64, 0))), ('the value balance is mapped', to_term(nv), smart('fld', (step,), to_term(nv).sort, ('std::result::Result', 0, 0)))]
    return [('fails only if the step does', eq(d, bvc(64, 1)))]


def actions_kept(c, a, b):
    """Obligations: b has the actions of a with the same contents, in order, but for the authorization; and
    a function giving the authorizations of both at one arbitrary position."""
    sa, sb = as_seq(field(a, 'actions')), as_seq(field(b, 'actions'))
    k = fresh('i', 64)
    n = seq_len(sa)
    ob = [('as many actions', seq_len(sb), n)]
    if c.ex.sol.valid(c.st.pc, eq(seq_len(sb), n)) != 'unsat':
        return ob, None, None, None
    c.st.add(ult(k, n))
    x, y = seq_at(sa, k), seq_at(sb, k)
    return ob + keep(x, y, 'authorization', ACTION_FIELDS, 'in each action, '), k, field(x, 'authorization'), field(y, 'authorization')


def last_call(v, f0, args, what):
    """v is the value of a call of the (stateful) caller-supplied function f0 on these arguments."""
    t = to_term(v)
    if t.op == 'callv' and len(t.args) == 1 + len(args) and tm.contains(t.args[0], {to_term(f0)}):
        return [(what + ' (argument %d)' % i, x, to_term(a)) for i, (x, a) in enumerate(zip(t.args[1:], args))]
    return [(what, t, uf('callv', (to_term(f0),) + tuple(to_term(a) for a in args), t.sort))]


def at_first(c, k):
    """No position before first(n, P) has P: stated of position k for every such term of the path."""
    seen, stack = set(), list(c.st.pc)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        stack.extend(t.args)
        if t.op == 'first':
            c.st.add(implies(ult(k, t), not_(vals.inst(t.args[1], k))))


@contract(B_ + 'map_authorization', 'P17 P18', kind='post', skip_apply=True)
def _(c, args, ret):
    a, r = c.d(args[0]), c.deep(ret)
    R = Opq(to_term(pre(c, args[1])), None)
    T = field(a, 'authorization')
    ob, k, x, y = actions_kept(c, a, r)
    ob += keep(a, r, 'authorization', [f for f in BUNDLE_FIELDS if f != 'actions'])
    if k is not None:
        ob += last_call(y, c.d(args[2]), [R, T, x], 'each authorization is mapped')
    return ob + one_call(field(r, 'authorization'), c.d(args[3]), [R, T], 'the authorization of the bundle is mapped')


@contract(B_ + 'try_map_authorization', 'P17 P18', kind='post', skip_apply=True)
def _(c, args, ret):
    a, r = c.d(args[0]), c.deep(ret)
    R = Opq(to_term(pre(c, args[1])), None)
    T = field(a, 'authorization')
    step = uf('callv', (to_term(c.d(args[3])), to_term(R), to_term(T)))
    if not (isinstance(r, Adt) and r.var == 0):
        return [('an error comes from a step', TRUE)]
    b = r.fs[0]
    ob, k, x, y = actions_kept(c, a, b)
    ob += keep(a, b, 'authorization', [f for f in BUNDLE_FIELDS if f != 'actions'])
    if k is not None:
        t = to_term(y)
        if t.op == 'fld' and t.data == ('std::result::Result', 0, 0):
            ob += last_call(Opq(t.args[0], None), c.d(args[2]), [R, T, x], 'each authorization is mapped')
            at_first(c, k)
            c.st.add(or_(eq(smart('discr', (t.args[0],), 64), bvc(64, 0)), eq(smart('discr', (t.args[0],), 64), bvc(64, 1))))
            ob += [('the step of each action succeeded', smart('discr', (t.args[0],), 64), bvc(64, 0))]
        else:
            ob += last_call(y, c.d(args[2]), [R, T, x], 'each authorization is mapped')
    nz_ = field(b, 'authorization')
    return ob + [('succeeds only if the step does', eq(smart('discr', (step,), 64), bvc(64, 0))), ('the authorization of the bundle is mapped', to_term(nz_), smart('fld', (step,), to_term(nz_).sort, ('std::result::Result', 0, 0)))]


def actions(c, b):
    """The actions of a bundle with elements of a known type."""
    return as_seq(field(c.d(b), 'actions'))


def instance(a, flags, anchor):
    return mkadt(ty(INSTANCE), dict(anchor=anchor, cv_net=field(a, 'cv_net'), nf_old=field(a, 'nf'), rk=field(a, 'rk'), cmx=field(a, 'cmx'),
                                    enable_spend=field(flags, 'spends_enabled'), enable_output=field(flags, 'outputs_enabled')))


@contract('bundle::<impl action::Action<T>>::to_instance', 'P06 P24')
def _(c, s, fl, anchor):
    return instance(c.d(s), c.d(fl), c.d(anchor))


def instances(c, b):
    v = c.d(b)
    return seq_map(actions(c, b), lambda a: instance(a, field(v, 'flags'), field(v, 'anchor')))


@contract(B_ + 'to_instances', 'P06 P24 P19')
def _(c, s):
    return instances(c, s)


# -- scanning -------------------------------------------------------------------
FOUND = '(note::Note, address::Address, [u8; 512])'


def trial(c, name, dom_and_key, action):
    """The dependency's trial decryption of one action, by name."""
    at = tyof(action)
    full = 'zcash_note_encryption::%s<note_encryption::OrchardDomain,%s>' % (name, TY[at]['s'])
    return Opq(uf('ext:' + full, dom_and_key), ty('std::option::Option<%s>' % FOUND))


def domain(a):
    return A(DOM, A(RHO, field(field(a, 'nf'), '0')))


def try_ivk(c, ivk, a):
    return trial(c, 'try_note_decryption', (to_term(domain(a)), to_term(A('keys::PreparedIncomingViewingKey', prep_ivk(c, ivk))), to_term(a)), a)


def try_ovk(c, ovk, a):
    out = field(field(a, 'encrypted_note'), 'out_ciphertext')
    return trial(c, 'try_output_recovery_with_ovk', (to_term(domain(a)), to_term(ovk), to_term(a), to_term(field(a, 'cv_net')), to_term(out)), a)


def prep_ivk(c, ivk):
    return prep(to_term(field(field(field(ivk, 'ivk'), '0'), '0')))


def is_some(o):
    return eq(smart('discr', (o.t,), 64), bvc(64, 1))


def scan(c, b, keys, attempt):
    """For each action in order: nothing if no key decrypts it, otherwise its index, the first key that does, and what it decrypts to."""
    acts = actions(c, b)
    n = seq_len(acts)
    tup = TY[c.rty]['a'][0]
    k = fresh('k', 64)
    a = seq_at(acts, k)
    m = seq_len(keys)
    first = mk_first_of(m, lambda j: is_some(attempt(seq_at(keys, j), a)))
    key = seq_at(keys, first)
    o = attempt(key, a)
    f = project(o, 0, ty(FOUND), 1)
    item = Tup([k, key] + [project(f, i, t) for i, t in enumerate(TY[ty(FOUND)]['e'])])
    j = fresh('j', 64)
    hit = ite(eq(m, first), bvc(64, 0), bvc(64, 1))
    return Seq([('flat', n, k, Seq([('lam', hit, j, item)], tup))], tup)


def mk_first_of(n, f):
    from exec import mk_first
    k = fresh('q', 64)
    return mk_first(n, lam(k, f(k)))


@contract(B_ + 'decrypt_outputs_with_keys', 'P15')
def _(c, s, keys):
    return scan(c, s, c.seq(keys), lambda k, a: try_ivk(c, k, a))


@contract(B_ + 'recover_outputs_with_ovks', 'P15')
def _(c, s, keys):
    return scan(c, s, c.seq(keys), lambda k, a: try_ovk(c, k, a))


def single(c, s, idx, attempt):
    acts = actions(c, s)
    inside = ult(idx, seq_len(acts))
    return vite(inside, attempt(seq_at(acts, idx)), c.none())


@contract(B_ + 'decrypt_output_with_key', 'P15')
def _(c, s, idx, key):
    return single(c, s, idx, lambda a: try_ivk(c, c.d(key), a))


@contract(B_ + 'recover_output_with_ovk', 'P15')
def _(c, s, idx, key):
    return single(c, s, idx, lambda a: try_ovk(c, c.d(key), a))


# -- commitments ----------------------------------------------------------------
def balance_i64(c, b):
    return M.into(c.ex, c.st, field(c.d(b), 'value_balance'), ty('i64'))


def spell(acts, f):
    """The concatenation of f of each action (fixed width)."""
    k = fresh('k', 64)
    n = seq_len(acts)
    return Seq([('flat', n, k, f(seq_at(acts, k)))], ty('u8'))


def fixed(v, n):
    return by(v, n)


def rk_bytes(a):
    return grepr(M.vk_point(to_term(field(field(a, 'rk'), '0'))))


def txid(c, b):
    acts = actions(c, b)
    v = c.d(b)
    enc = lambda a, lo, hi: sl(by(field(field(a, 'encrypted_note'), 'enc_ciphertext'), 580), lo, hi)
    out = lambda a: by(field(field(a, 'encrypted_note'), 'out_ciphertext'), 80)
    epk = lambda a: by(field(field(a, 'encrypted_note'), 'epk_bytes'), 32)
    compact = spell(acts, lambda a: M.cat(frepr(to_term(field(field(a, 'nf'), '0')), 'Fp'), frepr(to_term(field(field(a, 'cmx'), '0')), 'Fp'), epk(a), enc(a, 0, 52)))
    memos = spell(acts, lambda a: enc(a, 52, 564))
    rest = spell(acts, lambda a: M.cat(grepr(to_term(field(field(a, 'cv_net'), '0'))), rk_bytes(a), enc(a, 564, 580), out(a)))
    h = lambda p, d: M.blake2b(32, bytes_seq(p), d)
    fl = Seq([('lit', [flags_byte(field(v, 'flags'))])], ty('u8'))
    return h(b'ZTxIdOrchardHash', M.cat(h(b'ZTxIdOrcActCHash', compact), h(b'ZTxIdOrcActMHash', memos), h(b'ZTxIdOrcActNHash', rest), fl, u64le(to_term(balance_i64(c, b))),
                                        frepr(to_term(field(field(v, 'anchor'), '0')), 'Fp')))


def sig_bytes(s):
    return by(field(s, '0'), 64)


@contract('bundle::commitments::hash_bundle_txid_data', 'P16')
def _(c, b):
    return txid(c, b)


@contract(B_ + 'commitment', 'P16')
def _(c, b):
    return c.S(txid(c, b))


@contract('bundle::commitments::hash_bundle_txid_empty', 'P16')
def _(c):
    return M.blake2b(32, bytes_seq(b'ZTxIdOrchardHash'), Seq([], ty('u8')))


@contract('bundle::commitments::hash_bundle_auth_empty', 'P17')
def _(c):
    return M.blake2b(32, bytes_seq(b'ZTxAuthOrchaHash'), Seq([], ty('u8')))


SIGNATURE = 'primitives::redpallas::Signature<reddsa::orchard::SpendAuth>'


def typed(s):
    """A signature whose type is still an unresolved associated type."""
    t = tyof(s)
    if isinstance(s, Opq) and (t is None or TY[t]['k'] != 'adt'):
        return from_term(s.t, ty(SIGNATURE))
    return s


def auth_digest(c, b):
    au = field(c.d(b), 'authorization')
    acts = actions(c, b)
    sigs = spell(acts, lambda a: sig64(field(a, 'authorization')))
    return M.blake2b(32, bytes_seq(b'ZTxAuthOrchaHash'), M.cat(as_seq(field(field(au, 'proof'), '0'), ty('u8')), sigs, sig64(field(au, 'binding_signature'))))


def sig64(s):
    s = typed(s)
    t = to_term(field(s, '0'))
    r = uf('sig_bytes', (t,))
    vals.KNOWN_LEN[r] = 64
    return as_seq(Opq(r, ty('[u8; 64]')))


@contract('bundle::commitments::hash_bundle_auth_data', 'P17')
def _(c, b):
    return auth_digest(c, b)


@contract('bundle::Bundle::<bundle::Authorized, V>::authorizing_commitment', 'P17')
def _(c, b):
    return c.S(auth_digest(c, b))


@contract('bundle::<impl std::convert::From<bundle::BundleCommitment> for [u8; 32]>::from', 'P16', panics=lambda c, b: not_(eq(seq_len(as_seq(c.f(b, '0'))), bvc(64, 32))), note='the hashes of this crate have 32 bytes')
def _(c, b):
    return by(c.f(b, '0'), 32)


@contract('bundle::Authorized::from_parts', 'P17 P19')
def _(c, p, s):
    return mkadt(c.rty, dict(proof=c.d(p), binding_signature=c.d(s)))


for _n in ('proof', 'binding_signature'):
    @contract('bundle::Authorized::' + _n, 'P17 P19')
    def _(c, s, n=_n):
        return RefV(c.f(s, n))


# -- balance and proof ------------------------------------------------------------
def bvk(c, b):
    """sum of the value commitments - [value balance] V."""
    v = c.d(b)
    acts = actions(c, b)
    pt = lambda a: to_term(field(field(a, 'cv_net'), '0'))
    t = ty(VC)
    s = c.fold(acts, Adt(t, 0, [M.gval(M.g_zero())]), lambda st, acc, a: Adt(t, 0, [M.gval(M.g_add(to_term(field(acc, '0')), pt(a)))]), t)
    bal = sext(128, to_term(balance_i64(c, b)))
    return M.g_add(to_term(field(s, '0')), M.g_neg(cv_point(bal, tm.poly_const('Fq', 0))))


@contract(B_ + 'binding_validating_key', 'P02 P03 P19')
def _(c, b):
    return Adt(c.rty, 0, [Opq(M.mk_vk(bvk(c, b)), field_types(c.rty, 0)[0])])


def columns(i):
    """The public inputs of one action, in the order of the circuit."""
    P = lambda v, x: vite(M.geq(v, M.g_zero()), fp(0), M.fval(x(v), 'Fp'))
    cv = to_term(field(field(i, 'cv_net'), '0'))
    rk = M.vk_point(to_term(field(field(i, 'rk'), '0')))
    bit = lambda n: M.fval(M._u2f('Fp', zext(128, bv_of_bool(field(i, n), 64))), 'Fp')
    return [field(field(i, 'anchor'), '0'), P(cv, M.px), P(cv, M.py), field(field(i, 'nf_old'), '0'), P(rk, M.px), P(rk, M.py), field(field(i, 'cmx'), '0'), bit('enable_spend'), bit('enable_output')]


def nested(i):
    col = Seq([('lit', columns(i))], ty('pasta_curves::Fp'))
    return Seq([('lit', [col])], None)


def public_inputs(insts):
    return to_term(seq_map(insts, nested))


@contract('circuit::Instance::from_parts', 'P06')
def _(c, *a):
    return mkadt(c.rty, dict(zip(('anchor', 'cv_net', 'nf_old', 'rk', 'cmx', 'enable_spend', 'enable_output'), [c.d(x) for x in a])))


@contract('circuit::Instance::to_halo2_instance', 'P06 P24')
def _(c, s):
    return nested(c.d(s))


def verify_result(c, proof, vk, insts):
    ps, k = to_term(c.f(vk, 'params')), to_term(c.f(vk, 'vk'))
    rd = uf('halo2_read', (to_term(as_seq(field(c.d(proof), '0'), ty('u8'))),))
    return Opq(uf('halo2_verify', (ps, k, uf('halo2_single', (ps,)), public_inputs(insts), rd)), c.rty)


@contract('circuit::Proof::verify', 'P06 P24')
def _(c, s, vk, insts):
    return verify_result(c, s, vk, c.seq(insts))


@contract('bundle::Bundle::<bundle::Authorized, V>::verify_proof', 'P06 P24')
def _(c, b, vk):
    return verify_result(c, field(c.f(b, 'authorization'), 'proof'), vk, instances(c, b))


@contract('circuit::Proof::add_to_batch', 'P06 P19 P24')
def _(c, s, batch, insts):
    b = c.d(batch)
    c.write(batch, Opq(uf('halo2_batch_add', (to_term(b), public_inputs(c.seq(insts)), to_term(as_seq(c.f(s, '0'), ty('u8'))))), tyof(b)))
    return Tup([])


@contract('circuit::Proof::create', 'P05 P06 P24')
def _(c, pk, circuits, insts, rng):
    r = M.rng_draw(c.ex, c.st, rng, 'proof')
    wr = uf('halo2_write', (to_term(Seq([], ty('u8'))),))
    ts = (to_term(c.f(pk, 'params')), to_term(c.f(pk, 'pk')), to_term(c.seq(circuits)), public_inputs(c.seq(insts)), r, wr)
    res = Opq(uf('halo2_prove', ts), ty('std::result::Result<(), halo2_proofs::plonk::Error>'))
    proof = Adt(ty(PROOF), 0, [as_seq(Opq(uf('halo2_transcript', (uf('halo2_proved', ts),)), ty('std::vec::Vec<u8>')))])
    ok = eq(smart('discr', (res.t,), 64), bvc(64, 0))
    return vite(ok, c.ok(proof), c.err(project(res, 0, TY[c.rty]['a'][1], 1)))


@contract('circuit::Proof::new', 'P12 P24')
def _(c, b):
    return c.S(c.d(b))


@contract('<circuit::Proof as std::convert::AsRef<[u8]>>::as_ref', 'P12 P17 P24')
def _(c, s):
    return RefV(c.f(s, '0'))


# -- witness ------------------------------------------------------------------------
CIRCUIT, SPEND = 'circuit::Circuit', 'builder::SpendInfo'


def known(v):
    return lambda t: Adt(t, 0, [Adt(None, 1, [v])])


def witness(c, sp, out, alpha, rcv):
    note, fvk, path = field(sp, 'note'), field(sp, 'fvk'), field(sp, 'merkle_path')
    d, pk = addr_parts(field(note, 'recipient'))
    d2, pk2 = addr_parts(field(out, 'recipient'))
    ak, nk, rivk = fvk_parts(fvk)
    rs, rho, rs2, rho2 = field(note, 'rseed'), field(note, 'rho'), field(out, 'rseed'), field(out, 'rho')
    scope_int = eq(c.ex.discr(field(sp, 'scope'), 64, c.st), bvc(64, variant(ty('zip32::Scope'), 'Internal')))
    w = dict(path=field(path, 'auth_path'), pos=field(path, 'position'), g_d_old=nip(diversify_hash(d)), pk_d_old=field(field(note, 'recipient'), 'pk_d'),
             v_old=field(note, 'value'), rho_old=rho, psi_old=M.fval(psi_of(rs, rho), 'Fp'), rcm_old=A(RCM, M.fval(rcm_of(rs, rho), 'Fq')),
             cm_old=A(NCM, M.gval(note_cm(note)[0])), alpha=M.fval(to_term(alpha), 'Fq'), ak=field(fvk, 'ak'), nk=field(fvk, 'nk'),
             rivk=vite(scope_int, A(RIVK, M.fval(internal_rivk(*fvk_parts(fvk)), 'Fq')), field(fvk, 'rivk')),
             g_d_new=nip(diversify_hash(d2)), pk_d_new=field(field(out, 'recipient'), 'pk_d'), v_new=field(out, 'value'),
             psi_new=M.fval(psi_of(rs2, rho2), 'Fp'), rcm_new=A(RCM, M.fval(rcm_of(rs2, rho2), 'Fq')), rcv=rcv)
    t = ty(CIRCUIT)
    names = ADTS[TY[t]['p']]['v'][0]['f']
    fts = dict(zip(names, field_types(t, 0)))
    if set(names) != set(w):
        raise Lost('fields of Circuit')
    return Adt(t, 0, [known(w[n])(fts[n]) for n in names])


@contract('circuit::Circuit::from_action_context_unchecked', 'P05', cost=3)
def _(c, spend, out, alpha, rcv):
    return witness(c, c.d(spend), c.d(out), c.d(alpha), c.d(rcv))


@contract('circuit::Circuit::from_action_context', 'P05', cost=3)
def _(c, spend, out, alpha, rcv):
    sp, o = c.d(spend), c.d(out)
    nf = note_nf(field(sp, 'note'), field(sp, 'fvk'))
    return M.opt(c.rty, M.feq('Fp', nf, rho_x(field(o, 'rho'))), witness(c, sp, o, c.d(alpha), c.d(rcv)))


@contract('<circuit::Circuit as std::default::Default>::default', 'P24')
def _(c):
    return Adt(c.rty, 0, [Adt(t, 0, [Adt(None, 0, [])]) for t in field_types(c.rty, 0)])


def keys_of(c, extra):
    ps = uf('halo2_keygen_params', (bvc(32, 11),))
    cir = Adt(ty(CIRCUIT), 0, [Adt(t, 0, [Adt(None, 0, [])]) for t in field_types(ty(CIRCUIT), 0)])
    vk = smart('fld', (uf('halo2_keygen_vk', (ps, to_term(cir))),), 'U', ('std::result::Result', 0, 0))
    return ps, cir, vk


@contract('circuit::VerifyingKey::build', 'P24', maypanic=True, note='key generation succeeds for the fixed circuit (assumed; it takes no input)')
def _(c):
    ps, cir, vk = keys_of(c, False)
    return mkadt(c.rty, dict(params=Opq(ps, None), vk=Opq(vk, None)))


@contract('circuit::ProvingKey::build', 'P24', maypanic=True, note='key generation succeeds for the fixed circuit (assumed; it takes no input)')
def _(c):
    ps, cir, vk = keys_of(c, True)
    pk = smart('fld', (uf('halo2_keygen_pk', (ps, vk, to_term(cir))),), 'U', ('std::result::Result', 0, 0))
    return mkadt(c.rty, dict(params=Opq(ps, None), pk=Opq(pk, None)))


# -- batch validation ----------------------------------------------------------------
BV, BSIG = 'bundle::batch::BatchValidator', 'bundle::batch::BundleSignature'


def batch_new():
    return uf('halo2_batch_new', ())


@invariant(BV)
def _(v):
    """No proof without a signature, so that the shortcut for empty batches skips nothing."""
    return [implies(eq(seq_len(as_seq(field(v, 'signatures'))), bvc(64, 0)), eq(to_term(field(v, 'proofs')), batch_new()))]


for _n in ('bundle::batch::BatchValidator::new', '<bundle::batch::BatchValidator as std::default::Default>::default'):
    @contract(_n, 'P19')
    def _(c):
        return mkadt(c.rty, dict(proofs=Opq(batch_new(), None), signatures=Seq([], None)))


def item(kind, vk_pt, sig, msg):
    sig = typed(sig)
    vkb = uf('vkb', (grepr_t(vk_pt),))
    return A(BSIG, Opq(uf('batch_item', (vkb, to_term(field(sig, '0')), msg), 'U', kind), field_types(ty(BSIG), 0)[0]))


def grepr_t(p):
    return to_term(grepr(p))


@contract('bundle::batch::BatchValidator::add_bundle', 'P19', cost=2)
def _(c, s, b, sighash):
    v, bun = c.d(s), c.d(b)
    au = field(bun, 'authorization')
    msg = to_term(c.seq(sighash))
    sigs = seq_map(actions(c, b), lambda a: item('SpendAuth', M.vk_point(to_term(field(field(a, 'rk'), '0'))), field(a, 'authorization'), msg))
    bind = item('Binding', bvk(c, b), field(au, 'binding_signature'), msg)
    new = M.cat(as_seq(field(v, 'signatures'), ty(BSIG)), sigs, Seq([('lit', [bind])], ty(BSIG)))
    proofs = uf('halo2_batch_add', (to_term(field(v, 'proofs')), public_inputs(instances(c, b)), to_term(as_seq(field(field(au, 'proof'), '0'), ty('u8')))))
    c.write(s, mkadt(ty(BV), dict(proofs=Opq(proofs, None), signatures=new)))
    return Tup([])


@contract('bundle::batch::BatchValidator::validate', 'P19')
def _(c, s, vk, rng):
    v = c.d(s)
    sigs = as_seq(field(v, 'signatures'), ty(BSIG))
    items = seq_map(sigs, lambda x: field(x, 'signature'))
    r = M.rng_draw(c.ex, c.st, rng, 'batch')
    both = and_(uf('reddsa_batch_ok', (to_term(items), r), 'B'), uf('halo2_batch_ok', (to_term(field(v, 'proofs')), to_term(c.f(vk, 'params')), to_term(c.f(vk, 'vk'))), 'B'))
    return or_(eq(seq_len(sigs), bvc(64, 0)), both)
