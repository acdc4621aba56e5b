"""Contracts on the signing, proving and finalising half of src/builder.rs."""
from speclib import *
from s_keys import *
from s_bundle import *
from s_builder import *

UN, PA = 'builder::Unauthorized', 'builder::PartiallyAuthorized'
I_ = 'builder::<impl bundle::Bundle<builder::InProgress<%s, %s>, V>>::'
MAYBE, PARTS, META_ = 'builder::MaybeSigned', 'builder::SigningParts', 'builder::SigningMetadata'
SSIG = 'primitives::redpallas::Signature<reddsa::orchard::SpendAuth>'
BSIG = 'primitives::redpallas::Signature<reddsa::orchard::Binding>'
BERR = 'builder::BuildError'
SIGNED, UNSIGNED = lambda: variant(ty(MAYBE), 'Signature'), lambda: variant(ty(MAYBE), 'SigningMetadata')
berr = lambda n: Adt(ty(BERR), variant(ty(BERR), n), [])


def signature(t, scalar, within, msg):
    """A RedDSA signature by this scalar over msg; the randomness is whatever the code drew."""
    draw = [x.args[1] for x in subterms(to_term(within)) if x.op == 'reddsa_sign']
    return Adt(ty(t), 0, [Opq(uf('reddsa_sign', (M.mk_sk(scalar), draw[0] if draw else uf('no_draw', ()), msg)), field_types(ty(t), 0)[0])])


def subterms(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x not in seen:
            seen.add(x)
            stack.extend(x.args)
            yield x


def randomized(scalar, parts):
    return tm.poly_add('Fq', scalar, to_term(field(parts, 'alpha')))


def rk_point(parts):
    return M.g_add(ak_pt(field(parts, 'ak')), M.g_mul(to_term(field(parts, 'alpha')), M.basepoint('SpendAuth')))


def maybe(v, name):
    return eq(discr_of(v), b64(variant(ty(MAYBE), name)))


def parts_of(v):
    return project(v, 0, ty(PARTS), UNSIGNED())


def sigs(c, b):
    return field(field(b, 'authorization'), 'sigs')


def mapped(c, a, r, expected, was=MAYBE, name='each authorization'):
    """r is the bundle a but for the authorization of its actions, which is expected(x)."""
    ob, k, x, y = actions_kept(c, a, r)
    ob += keep(a, r, 'authorization', [f for f in BUNDLE_FIELDS if f != 'actions'])
    if k is not None:
        x = from_term(to_term(x), ty(was))
        ob.append((name, y, expected(x, y)))
    return ob


def opaque_bundle(op):
    def f(c, s, *a):
        return from_term(uf(op, (to_term(c.deep(s)),) + tuple(to_term(c.deep(x)) for x in a)), c.rty)
    return f


# -- prepare -------------------------------------------------------------------------------
def prep_havoc(c, s, rng, sighash):
    r = M.rng_draw(c.ex, c.st, rng, 'prepare')
    return from_term(uf('prepared', (to_term(c.deep(s)), r, to_term(c.seq(sighash)))), c.rty)


@contract(I_ % ('P', UN) + 'prepare', 'P18', kind='post', havoc=prep_havoc, nocontract=(B_ + 'map_authorization',))
def _(c, args, ret):
    a, r = c.d(args[0]), c.deep(ret)
    h = to_term(c.seq(args[2]))

    def expect(x, y):
        da, parts = field(x, 'dummy_ask'), field(x, 'parts')
        sc = randomized(ask_scalar(some_of(da, ASK)), parts)
        return vite(is_some(da), Adt(ty(MAYBE), SIGNED(), [signature(SSIG, sc, y, h)]), Adt(ty(MAYBE), UNSIGNED(), [parts]))
    ob = mapped(c, a, r, expect, was=META_, name='dummies are signed with their randomized key over the digest, all others wait for their key')
    ra, aa = field(r, 'authorization'), field(a, 'authorization')
    sg = field(ra, 'sigs')
    bsk = M.sk_scalar(to_term(field(field(sigs(c, a), 'bsk'), '0')))
    return ob + [('proof part kept', to_term(field(ra, 'proof')), to_term(field(aa, 'proof'))), ('digest recorded', as_seq(field(sg, 'sighash')), c.seq(args[2])),
                 ('binding signature by the binding key over the digest', field(sg, 'binding_signature'), signature(BSIG, bsk, field(sg, 'binding_signature'), h))]


# -- sign ----------------------------------------------------------------------------------
def sign_havoc(c, s, rng, ask):
    r = M.rng_draw(c.ex, c.st, rng, 'sign spends')
    return from_term(uf('signed', (to_term(c.deep(s)), r, to_term(c.d(ask)))), c.rty)


@contract(I_ % ('P', PA) + 'sign', 'P18', kind='post', havoc=sign_havoc, nocontract=(B_ + 'map_authorization',))
def _(c, args, ret):
    a, r, ask = c.d(args[0]), c.deep(ret), c.d(args[2])
    h = to_term(as_seq(field(sigs(c, a), 'sighash')))

    def expect(x, y):
        p = parts_of(x)
        mine = and_(maybe(x, 'SigningMetadata'), M.geq(ak_pt(field(p, 'ak')), M.g_mul(ask_scalar(ask), M.basepoint('SpendAuth'))))
        return vite(mine, Adt(ty(MAYBE), SIGNED(), [signature(SSIG, randomized(ask_scalar(ask), p), y, h)]), x)
    return mapped(c, a, r, expect, name='exactly the spends of this key are signed, with the key randomized for the action') + \
        [('everything else kept', to_term(field(r, 'authorization')), to_term(field(a, 'authorization')))]


# -- append_signature(s) ---------------------------------------------------------------------
@contract(I_ % ('P', PA) + 'append_signature', 'P18', kind='post', havoc=opaque_bundle('append_signature'), nocontract=(B_ + 'map_authorization',))
def _(c, args, ret):
    a, r, sig = c.d(args[0]), c.deep(ret), c.d(args[1])
    h = to_term(as_seq(field(sigs(c, a), 'sighash')))

    def match(x):
        return and_(maybe(x, 'SigningMetadata'), uf('reddsa_verifies', (rk_point(parts_of(x)), h, to_term(field(sig, '0'))), 'B'))
    n = c.fold(as_seq(field(a, 'actions')), b64(0), lambda st, acc, x: ite(match(from_term(to_term(field(x, 'authorization')), ty(MAYBE))), bvadd(acc, b64(1)), acc), ty('usize'))
    good = eq(discr_of(r), b64(0))
    if good is FALSE:
        return [('rejected only if not exactly one spend matches', not_(eq(n, b64(1)))),
                ('reason', some_err(r), vite(eq(n, b64(0)), berr('InvalidExternalSignature'), berr('DuplicateSignature')))]
    b = r.fs[0]
    return [('attached only if exactly one spend matches', n, b64(1))] + \
        mapped(c, a, b, lambda x, y: vite(match(x), Adt(ty(MAYBE), SIGNED(), [sig]), x), name='attached to the matching spend') + \
        [('everything else kept', to_term(field(b, 'authorization')), to_term(field(a, 'authorization')))]


def some_err(r):
    return project(r, 0, ty(BERR), 1)


@contract(I_ % ('P', PA) + 'append_signatures', 'P18', kind='post')
def _(c, args, ret):
    a, r, s = c.d(args[0]), c.deep(ret), c.seq(args[1])
    bt = a.ty
    step = lambda acc, x: uf('append_signature', (to_term(acc), to_term(x)))
    good = lambda t: eq(smart('discr', (t,), 64), b64(0))
    n = seq_len(s)
    F = lambda j: c.fold(seq_prefix(s, j), a, lambda st, acc, x: from_term(smart('fld', (step(acc, x),), 'U', ('std::result::Result', 0, 0)), bt), bt)
    k = fresh('i', 64)
    fx = [x for x in subterms(and_(*c.st.pc)) if x.op == 'first']
    if isinstance(r, Adt) and r.var == 0:
        c.st.add(ult(k, n))
        at_first(c, k)
        return [('all signatures are appended in turn', to_term(r.fs[0]), to_term(F(n))), ('each was accepted', good(step(F(k), seq_at(s, k))))]
    if not fx:
        return [('an error comes from a signature', FALSE)]
    t = step(F(fx[0]), seq_at(s, fx[0]))
    bad = [('the signature that failed', ult(fx[0], n)), ('it was rejected', not_(good(t)))]
    if isinstance(r, Adt):
        return bad + [('its error is reported', to_term(r.fs[0]), smart('fld', (t,), 'U', ('std::result::Result', 1, 0)))]
    return bad + [('its error is reported', to_term(r), t)]


def seq_prefix(s, j):
    x = fresh('k', 64)
    return Seq([('lam', j, x, seq_at(s, x))], s.ety)


# -- finalize -----------------------------------------------------------------------------------
@contract('builder::MaybeSigned::finalize', 'P18')
def _(c, s):
    m = c.d(s)
    t = TY[c.rty]['a']
    return vite(maybe(m, 'Signature'), c.ok(project(m, 0, t[0], SIGNED())), c.err(berr('MissingSignatures')))


@contract(I_ % ('circuit::Proof', PA) + 'finalize', 'P18', kind='post', havoc=opaque_bundle('finalized'), nocontract=(B_ + 'try_map_authorization',))
def _(c, args, ret):
    a, r = c.d(args[0]), c.deep(ret)
    if isinstance(r, Adt) and r.var == 1:
        acts = as_seq(field(a, 'actions'))
        fx = [x for x in subterms(and_(*c.st.pc)) if x.op == 'first']
        if not fx:
            return [('an error is about a missing signature', FALSE)]
        return [('refused only if a signature is missing', and_(ult(fx[0], seq_len(acts)), not_(maybe(field(seq_at(acts, fx[0]), 'authorization'), 'Signature')))), ('reason', some_err(r), berr('MissingSignatures'))]
    b = r.fs[0]
    ob, k, x, y = actions_kept(c, a, b)
    ob += keep(a, b, 'authorization', [f for f in BUNDLE_FIELDS if f != 'actions'])
    if k is not None:
        at_first(c, k)
        x = from_term(to_term(x), ty(MAYBE))
        ob += [('no signature is missing', maybe(x, 'Signature')), ('the signature of the action', y, project(x, 0, ty(SSIG), SIGNED()))]
    au = field(b, 'authorization')
    return ob + [('proof', field(au, 'proof'), field(field(a, 'authorization'), 'proof')), ('binding signature', field(au, 'binding_signature'), field(sigs(c, a), 'binding_signature'))]


DRAWS = {'prepared': 1, 'signed': 1, 'reddsa_sign': 1}


def no_draws(t):
    """The term without the randomness its signatures draw."""
    memo = {}

    def go(t):
        if not t.args:
            return t
        if t not in memo:
            na = [go(x) for x in t.args]
            if t.op in DRAWS:
                na[DRAWS[t.op]] = uf('draw', ())
            memo[t] = tm.rebuild(t, tuple(na))
        return memo[t]
    return go(t)


@contract(I_ % ('circuit::Proof', UN) + 'apply_signatures', 'P18', kind='post')
def _(c, args, ret):
    a, keys = c.d(args[0]), c.seq(args[3])
    t = no_draws(to_term(c.deep(ret)))
    d = uf('draw', ())
    bt = c.ex.byname[I_ % ('circuit::Proof', PA) + 'finalize']['l'][1]
    b = from_term(uf('prepared', (to_term(a), d, to_term(c.seq(args[2])))), bt)
    want = c.fold(keys, b, lambda st, acc, k: from_term(uf('signed', (to_term(acc), d, to_term(k))), bt), bt)
    return [('prepared for the digest, signed with each key, then finalised', t, uf('finalized', (to_term(want),)))]


# -- proving ---------------------------------------------------------------------------------------
@contract('builder::InProgress::<builder::Unproven, S>::create_proof', 'P24')
def _(c, s, pk, insts, rng):
    return c.call('circuit::Proof::create', pk, RefV(field(field(c.d(s), 'proof'), 'circuits')), insts, rng)


@contract('builder::<impl bundle::Bundle<builder::InProgress<builder::Unproven, S>, V>>::create_proof', 'P24 P06', kind='post', nocontract=(B_ + 'try_map_authorization',))
def _(c, args, ret):
    a, r = c.d(args[0]), c.deep(ret)
    pf = [x for x in subterms(and_(to_term(r) if to_term(r).sort == 'B' else TRUE, *c.st.pc)) if x.op == 'halo2_prove'] or [x for x in subterms(to_term(r)) if x.op == 'halo2_prove']
    if not pf:
        return [('the bundle is proved', NOSHAPE)]
    t = pf[0]
    au = field(a, 'authorization')
    ob = [('one circuit per action, as built', t.args[2], to_term(as_seq(field(field(au, 'proof'), 'circuits')))), ('public inputs of every action, in order', t.args[3], public_inputs(as_seq(instances(c, a)))),
          ('proving key', and_(eq(t.args[0], to_term(c.f(args[1], 'params'))), eq(t.args[1], to_term(c.f(args[1], 'pk')))))]
    good = eq(smart('discr', (t,), 64), b64(0))
    if isinstance(r, Adt) and r.var == 1:
        return ob + [('fails only if proving fails', not_(good))]
    b = r.fs[0]
    o2, k, x, y = actions_kept(c, a, b)
    ob += o2 + keep(a, b, 'authorization', [f for f in BUNDLE_FIELDS if f != 'actions'])
    if k is not None:
        ob += [('authorizations kept', to_term(y), to_term(x))]
    au2 = field(b, 'authorization')
    return ob + [('succeeds only if proving does', good), ('signing state kept', to_term(field(au2, 'sigs')), to_term(field(au, 'sigs'))),
                 ('the proof is the one created', to_term(as_seq(field(field(au2, 'proof'), '0'))), to_term(as_seq(Opq(uf('halo2_transcript', (uf('halo2_proved', t.args),)), ty('std::vec::Vec<u8>')))))]
