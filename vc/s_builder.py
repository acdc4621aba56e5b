"""Contracts on src/builder.rs."""
from speclib import *
from s_spec import *
from s_value import VC, VS, TD, cv_point, add128
from s_keys import *
from s_note import *
from s_tree import ANCHOR, PATH, merkle_root, rand_path
from s_bundle import *
import exec as xm
import values as vals
import refute as rf

OUTPUT, AINFO, META, BT, BUILDER = 'builder::OutputInfo', 'builder::ActionInfo', 'builder::BundleMetadata', 'builder::BundleType', 'builder::Builder'
OVK = 'keys::OutgoingViewingKey'
b64 = lambda n: bvc(64, n)


def discr_of(v):
    if isinstance(v, Opq):
        vals.note_enum(v.t, v.ty)
    return b64(int(ADTS[adt_name(v.ty)]['v'][v.var]['d'])) if isinstance(v, Adt) else smart('discr', (to_term(v),), 64)


def is_some(v):
    return eq(discr_of(v), b64(1))


def some_of(v, t):
    return project(v, 0, ty(t), 1)


# -- assumed contract of zcash_note_encryption ------------------------------------------
@M.pattern(r'zcash_note_encryption::NoteEncryption::<D>::(new|epk|encrypt_note_plaintext|encrypt_outgoing_plaintext)')
def _(ex, st, a, info, m):
    """NoteEncryption::new(ovk, note, memo) is a value determined by its arguments whose epk is the ephemeral
    public key of the note; the ciphertexts are functions of it (and of cv, cmstar and the generator)."""
    op = m.group(1)
    d = [ex.full_deref(x, st) for x in a]
    if op == 'new':
        return Opq(uf('ne_new', tuple(to_term(ex.deep(x, st)) for x in d)), info.ty)
    ne = to_term(ex.deep(d[0], st))
    if op == 'epk':
        if ne.op != 'ne_new':
            return NotImplemented
        n = from_term(ne.args[1], ty(NOTE))
        return RefV(A('keys::EphemeralPublicKey', epk_of(n)))
    if op == 'encrypt_note_plaintext':
        return as_seq(Opq(uf('ne_enc', (ne,)), ty('[u8; 580]')))
    r = M.rng_draw(ex, st, a[3], 'outenc')
    return as_seq(Opq(uf('ne_out', (ne, to_term(ex.deep(d[1], st)), to_term(ex.deep(d[2], st)), r)), ty('[u8; 80]')))


def epk_of(n):
    return nip(M.g_mul(esk_of(field(n, 'rseed'), field(n, 'rho')), diversify_hash(addr_parts(field(n, 'recipient'))[0])))


# -- bundle types ------------------------------------------------------------------------
def bt_parts(c, b):
    """(is transactional, spends enabled, outputs enabled, bundle required)"""
    t = is_variant(c, b, variant(ty(BT), 'Transactional'))
    fl = project(b, 0, ty(FLAGS), 0)
    return t, and_(t, field(fl, 'spends_enabled')), or_(not_(t), field(fl, 'outputs_enabled')), and_(t, project(b, 1, ty('bool'), 0))


def bt_flags(c, b):
    t, se, oe, _ = bt_parts(c, b)
    return mkadt(ty(FLAGS), dict(spends_enabled=se, outputs_enabled=oe))


def umax(a, b):
    return ite(ult(a, b), b, a)


def bt_num(c, b, ns, no):
    """(number of actions, whether the request fits the bundle type)"""
    t, se, oe, req = bt_parts(c, b)
    z = b64(0)
    ok = and_(or_(se, eq(ns, z)), or_(oe, eq(no, z)))
    m = umax(ns, no)
    n = ite(t, ite(or_(req, not_(eq(m, z))), umax(m, b64(2)), z), no)
    return n, ok


@contract('builder::BundleType::flags', 'P20')
def _(c, s):
    return bt_flags(c, c.d(s))


@contract('builder::BundleType::num_actions', 'P20', kind='post', havoc=lambda c, s, ns, no: num_havoc(c, s, ns, no))
def _(c, args, ret):
    n, ok = bt_num(c, c.d(args[0]), args[1], args[2])
    d = c.ex.discr(c.d(ret), 64, c.st)
    good = eq(d, b64(0))
    return [('refused exactly when the requests do not fit the bundle type', good, ok),
            ('number of actions', implies(good, eq(project(c.d(ret), 0, ty('usize'), 0), n)) if good is not FALSE else TRUE)]


def num_havoc(c, s, ns, no):
    n, ok = bt_num(c, c.d(s), ns, no)
    e = TY[c.rty]['a'][1]
    sym = uf('num_actions', (to_term(c.d(s)), ns, no), 64)
    c.st.add(implies(ok, eq(sym, n)))
    rf.DEFS[sym] = n
    return vite(ok, c.ok(sym), Adt(c.rty, 1, [Opq(uf('num_actions_message', (ns, no)), e)]))


# -- spends and outputs --------------------------------------------------------------------
def ivk_in(fvk, internal_):
    ak, nk, rivk = fvk_parts(fvk)
    return mk_ivk(ak, nk, internal_rivk(ak, nk, rivk) if internal_ else rivk)


@invariant(SPEND)
def _(v):
    """The scope's viewing key owns the note; a dummy has its own key and no value."""
    note, fvk = field(v, 'note'), field(v, 'fvk')
    rec = field(note, 'recipient')
    int_ = eq(discr_of(field(v, 'scope')), b64(variant(ty('zip32::Scope'), 'Internal')))
    dm = field(v, 'dummy_sk')
    out = [ite(int_, owns(ivk_in(fvk, True), rec), owns(ivk_in(fvk, False), rec))]
    if discr_of(dm) is not b64(0):
        sk = some_of(dm, SK)
        ak, nk, rivk = fvk_parts(fvk)
        out.append(implies(is_some(dm), and_(eq(field(field(note, 'value'), '0'), b64(0)), M.geq(ak, fvk_parts(fvk_of(sk))[0]), M.feq('Fp', nk, nk_of(sk)), M.feq('Fq', rivk, rivk_of(sk)))))
    return out


def fvk_of(sk):
    return mk_fvk(ask_of(sk)[1], nk_of(sk), rivk_of(sk))


@contract('builder::SpendInfo::new', 'P20 P05')
def _(c, fvk, note, path):
    f, n = c.d(fvk), c.d(note)
    ak, nk, rivk = fvk_parts(f)
    t = ty('zip32::Scope')
    sc = lambda i: Adt(t, variant(t, i), [])
    rec = field(n, 'recipient')
    st = ty(SPEND)
    ot = ADTS[SPEND]['v'][0]['f'].index('dummy_sk')
    mk_ = lambda s: c.some(mkadt(st, dict(dummy_sk=Adt(field_types(st, 0)[ot], 0, []), fvk=f, scope=s, note=n, merkle_path=c.d(path))))
    return vite(owns(ivk_in(f, False), rec), mk_(sc('External')), vite(owns(ivk_in(f, True), rec), mk_(sc('Internal')), c.none()))


def dummy_spend(c, rng):
    return from_term(uf('dummy_spend', (M.rng_draw(c.ex, c.st, rng, 'dummy spend'),)), ty(SPEND))


def dummy_spend_facts(t):
    s = Opq(t, ty(SPEND))
    return [is_some(field(s, 'dummy_sk')), eq(field(field(field(s, 'note'), 'value'), '0'), b64(0))]


def dummy_output_facts(t):
    o = Opq(t, ty(OUTPUT))
    return [eq(field(field(o, 'value'), '0'), b64(0)), eq(discr_of(field(o, 'ovk')), b64(0))]


xm.lemmas.OP_FACTS.update(dummy_spend=dummy_spend_facts, dummy_output=dummy_output_facts)


@contract('builder::SpendInfo::dummy', 'P20', kind='post', havoc=dummy_spend)
def _(c, args, ret):
    s = c.d(ret)
    dm, n, fvk = field(s, 'dummy_sk'), field(s, 'note'), field(s, 'fvk')
    sk = some_of(dm, SK)
    return [('has the spending key of the dummy', is_some(dm)), ('the value is zero', field(field(n, 'value'), '0'), b64(0)), ('the viewing key is that of the spending key', fvk, fvk_of(sk)),
            ('the note belongs to that key', owns(ivk_in(fvk, False), field(n, 'recipient')))]


def anchor_ok(c, s, anchor):
    n = field(s, 'note')
    root = merkle_root(field(s, 'merkle_path'), note_cmx(n))
    return or_(eq(field(field(n, 'value'), '0'), b64(0)), M.feq('Fp', root, to_term(field(anchor, '0'))))


def anchor_opaque(c, s, anchor):
    if 'builder::SpendInfo::has_matching_anchor' in c.ex.nocontract:
        return anchor_ok(c, c.d(s), c.d(anchor))
    return uf('spend_matches_anchor', (to_term(c.d(s)), to_term(field(c.d(anchor), '0'))), 'B')


@contract('builder::SpendInfo::has_matching_anchor', 'P20', opaque=anchor_opaque)
def _(c, s, anchor):
    return anchor_ok(c, c.d(s), c.d(anchor))


def default_memo():
    return bytes_seq(bytes([0xf6]) + bytes(511))


def mk_output(c, ovk, rec, value, memo):
    m = c.d(memo)
    sm = is_variant(c, m, 1)
    mv = default_memo() if sm is FALSE else vite(sm, as_seq(by(project(m, 0, ty('[u8; 512]'), 1), 512)), default_memo())
    return mkadt(ty(OUTPUT), dict(ovk=c.d(ovk), recipient=c.d(rec), value=c.d(value), memo=mv))


@contract('builder::OutputInfo::new', 'P04 P20')
def _(c, *a):
    return mk_output(c, *a)


def dummy_output(c, rng):
    return from_term(uf('dummy_output', (M.rng_draw(c.ex, c.st, rng, 'dummy output'),)), ty(OUTPUT))


@contract('builder::OutputInfo::dummy', 'P20', kind='post', havoc=dummy_output)
def _(c, args, ret):
    o = c.d(ret)
    return [('the value is zero', field(field(o, 'value'), '0'), b64(0)), ('no outgoing key', discr_of(field(o, 'ovk')), b64(0)), ('the default memo', field(o, 'memo'), default_memo())]


# -- one action ------------------------------------------------------------------------------
def new_ainfo(c, spend, output, rng):
    r = A(TD, M.fval(uf('random', (M.rng_draw(c.ex, c.st, rng, 'rcv'),), 'U', 'Fq'), 'Fq'))
    return mkadt(ty(AINFO), dict(spend=c.d(spend), output=c.d(output), rcv=r))


@contract('builder::ActionInfo::new', 'P04', kind='post', havoc=new_ainfo)
def _(c, args, ret):
    a = c.d(ret)
    t = to_term(field(field(a, 'rcv'), '0'))
    return [('spend', field(a, 'spend'), c.d(args[0])), ('output', field(a, 'output'), c.d(args[1])), ('the trapdoor is drawn from the generator', boolc(t.op == 'random'))]


def v_net(a):
    v = field(field(field(field(a, 'spend'), 'note'), 'value'), '0')
    w = field(field(field(a, 'output'), 'value'), '0')
    return bvsub(zext(128, v), zext(128, w))


@contract('builder::ActionInfo::value_sum', 'P01 P02 P04')
def _(c, s):
    return A(VS, v_net(c.d(s)))


def build_havoc(c, s, rng):
    """Symbols for the action and the circuit; only the value commitment is spelled out."""
    ai = to_term(c.d(s))
    r = M.rng_draw(c.ex, c.st, rng, 'action')
    at, ct = TY[c.rty]['e']
    act = from_term(uf('built_action', (ai, r)), at)
    fs = {f: field(act, f) for f in ACTION_FIELDS}
    a = c.d(s)
    fs['cv_net'] = A(VC, M.gval(cv_point(v_net(a), to_term(field(field(a, 'rcv'), '0')))))
    return Tup([mkadt(at, fs), from_term(uf('built_circuit', (ai, r)), ct)])


@contract('builder::ActionInfo::build', 'P04 P05 P18', kind='post', havoc=build_havoc, cost=3)
def _(c, args, ret):
    s = c.d(args[0])
    act, cir = (c.d(x) for x in c.d(ret).fs)
    sp, o = field(s, 'spend'), field(s, 'output')
    note, fvk = field(sp, 'note'), field(sp, 'fvk')
    nf = note_nf(note, fvk)
    ak = fvk_parts(fvk)[0]
    auth = field(act, 'authorization')
    alpha = to_term(field(field(auth, 'parts'), 'alpha'))
    enc = field(act, 'encrypted_note')
    ne = to_term(field(enc, 'enc_ciphertext'))
    ob = [('nullifier of the spent note', to_term(field(field(act, 'nf'), '0')), nf),
          ('randomized validating key', to_term(field(act, 'rk')), to_term(mk_rvk(M.g_add(ak, M.g_mul(alpha, M.basepoint('SpendAuth')))))),
          ('the randomizer is drawn from the generator', boolc(alpha.op == 'random')),
          ('signing needs the key of the spend', to_term(field(field(auth, 'parts'), 'ak')), to_term(field(fvk, 'ak'))),
          ('value commitment to the difference', field(act, 'cv_net'), A(VC, M.gval(cv_point(v_net(s), to_term(field(field(s, 'rcv'), '0'))))))]
    dm, da = field(sp, 'dummy_sk'), field(auth, 'dummy_ask')
    ob += [('a signing key is kept exactly for dummies', is_some(da), is_some(dm))]
    if is_some(da) is not FALSE:
        x = ask_of(some_of(dm, SK))[0]
        ob += [('the signing key kept is that of the dummy', implies(is_some(da), M.feq('Fq', ask_scalar(some_of(da, ASK)), x)))]
    e = seq_base(field(enc, 'enc_ciphertext'))
    if e is None or e.op != 'ne_enc' or e.args[0].op != 'ne_new':
        return ob + [('the note ciphertext is an encryption', NOSHAPE)]
    ne = e.args[0]
    n = from_term(ne.args[1], ty(NOTE))
    ob += [('outgoing key', ne.args[0], to_term(field(o, 'ovk'))), ('memo', as_seq(from_term(ne.args[2], ty('[u8; 512]'))), as_seq(field(o, 'memo'))),
           ('recipient of the new note', field(n, 'recipient'), field(o, 'recipient')), ('value of the new note', field(n, 'value'), field(o, 'value')),
           ('the new note continues the nullifier', rho_x(field(n, 'rho')), nf),
           ('commitment of the new note', to_term(field(field(act, 'cmx'), '0')), to_term(M.fval(note_cmx(n), 'Fp'))),
           ('ephemeral key', as_seq(field(enc, 'epk_bytes')), grepr(to_term(field(epk_of(n), '0')))),
           ('witness', cir, witness(c, sp, n, M.fval(alpha, 'Fq'), field(s, 'rcv')))]
    w = seq_base(field(enc, 'out_ciphertext'))
    if w is None or w.op != 'ne_out':
        return ob + [('the outgoing ciphertext is an encryption', NOSHAPE)]
    return ob + [('outgoing ciphertext of the same note', boolc(w.args[0] is ne)), ('outgoing ciphertext under the value commitment', w.args[1], to_term(field(act, 'cv_net'))),
                 ('outgoing ciphertext under the note commitment', w.args[2], to_term(field(act, 'cmx')))]


def seq_base(v):
    """The term an array of known length was projected from, when it is all of one term in order."""
    s = as_seq(v).concrete()
    if not s or to_term(s[0]).op != 'idx':
        return None
    b = to_term(s[0]).args[0]
    return b if all(to_term(x).op == 'idx' and to_term(x).args[0] is b and to_term(x).args[1] is bvc(64, i) for i, x in enumerate(s)) else None


# -- metadata ------------------------------------------------------------------------------------
def mk_meta(t, ns, no):
    z = lambda n: Seq([('lam', n, fresh('i', 64), b64(0))], ty('usize'))
    return mkadt(t, dict(spend_indices=z(ns), output_indices=z(no)))


@contract('builder::BundleMetadata::new', 'P21')
def _(c, ns, no):
    return mk_meta(c.rty, ns, no)


@contract('builder::BundleMetadata::empty', 'P21')
def _(c):
    return mk_meta(c.rty, b64(0), b64(0))


for _n, _f in (('spend_action_index', 'spend_indices'), ('output_action_index', 'output_indices')):
    @contract('builder::BundleMetadata::' + _n, 'P21')
    def _(c, s, n, f=_f):
        v = as_seq(c.f(s, f))
        return vite(ult(n, seq_len(v)), c.some(seq_at(v, n)), c.none())


# -- the builder ------------------------------------------------------------------------------------
@contract('builder::Builder::new', 'P20')
def _(c, bt, anchor):
    e = lambda t: Seq([], ty(t))
    return mkadt(c.rty, dict(spends=e(SPEND), outputs=e(OUTPUT), bundle_type=c.d(bt), anchor=c.d(anchor)))


def with_field(v, f, x):
    names = ADTS[adt_name(v.ty)]['v'][0]['f']
    return mkadt(v.ty, {n: (x if n == f else field(v, n)) for n in names})


def push(s, x):
    return seq_concat(as_seq(s), Seq([('lit', [x])], as_seq(s).ety))


@contract('builder::Builder::add_spend', 'P20', cost=2)
def _(c, s, fvk, note, path):
    b = c.d(s)
    f, n = c.d(fvk), c.d(note)
    t, se, oe, _ = bt_parts(c, field(b, 'bundle_type'))
    rec = field(n, 'recipient')
    e, i = owns(ivk_in(f, False), rec), owns(ivk_in(f, True), rec)
    sct = ty('zip32::Scope')
    st = ty(SPEND)
    ot = field_types(st, 0)[ADTS[SPEND]['v'][0]['f'].index('dummy_sk')]
    sp = lambda sc: mkadt(st, dict(dummy_sk=Adt(ot, 0, []), fvk=f, scope=Adt(sct, variant(sct, sc), []), note=n, merkle_path=c.d(path)))
    et = TY[c.rty]['a'][1]
    err = lambda name: c.err(Adt(et, variant(et, name), []))
    outs = []
    for cond, sc in ((and_(se, e), 'External'), (and_(se, not_(e), i), 'Internal')):
        x = sp(sc)
        a = anchor_opaque(c, x, field(b, 'anchor'))
        s1 = c.st.copy().add(cond).add(a)
        c1 = Ctx(c.ex, s1, c.rty)
        c1.write(s, with_field(b, 'spends', push(field(b, 'spends'), x)))
        outs += [(s1, c.ok(Tup([]))), (c.st.copy().add(cond).add(not_(a)), err('AnchorMismatch'))]
    return outs + [(c.st.copy().add(not_(se)), err('SpendsDisabled')), (c.st.copy().add(and_(se, not_(e), not_(i))), err('FvkMismatch'))]


@contract('builder::Builder::add_output', 'P20 P04')
def _(c, s, ovk, rec, value, memo):
    b = c.d(s)
    oe = bt_parts(c, field(b, 'bundle_type'))[2]
    s1 = c.st.copy().add(oe)
    Ctx(c.ex, s1, c.rty).write(s, with_field(b, 'outputs', push(field(b, 'outputs'), mk_output(c, ovk, rec, value, memo))))
    return [(s1, c.ok(Tup([]))), (c.st.copy().add(not_(oe)), c.err())]


for _n in ('spends', 'outputs'):
    @contract('builder::Builder::' + _n, 'P20')
    def _(c, s, n=_n):
        return RefV(c.f(s, n))


def opt_add(c, acc, x):
    """Option<ValueSum> + signed 128-bit: nothing once a partial sum is out of range."""
    vs = ty(VS)
    a = project(acc, 0, vs, 1)
    r, ok = add128(field(a, '0'), x)
    t = ty('std::option::Option<value::ValueSum>')
    return vite(and_(is_variant(c, acc, 1), ok), Adt(t, 1, [Adt(vs, 0, [r])]), Adt(t, 0, []))


def opt_zero():
    return Adt(ty('std::option::Option<value::ValueSum>'), 1, [A(VS, bvc(128, 0))])


def as_balance(c, total, rty, err):
    """V::try_from of the total as i64: [(state, value)]."""
    some = is_variant(c, total, 1)
    x = field(project(total, 0, ty(VS), 1), '0')
    fits = and_(sle(bvc(128, -(1 << 63)), x), sle(x, bvc(128, (1 << 63) - 1)))
    return some, fits, extract(63, 0, x)


@contract('builder::Builder::value_balance', 'P02')
def _(c, s):
    b = c.d(s)
    ot = ty('std::option::Option<value::ValueSum>')
    val = lambda n: zext(128, field(field(n, 'value'), '0'))
    t = c.fold(seq_map(as_seq(field(b, 'spends')), lambda x: field(x, 'note')), opt_zero(), lambda st, acc, x: opt_add(c, acc, val(x)), ot)
    t = c.fold(as_seq(field(b, 'outputs')), t, lambda st, acc, x: opt_add(c, acc, bvsub(bvc(128, 0), val(x))), ot)
    some, fits, i = as_balance(c, t, None, None)
    vt = TY[c.rty]['a'][0]
    conv = uf('ext:std::convert::TryFrom::try_from<V,i64>', (i,))
    good = eq(smart('discr', (conv,), 64), b64(0))
    return vite(and_(some, fits, good), c.ok(mkval('fld', (conv,), vt, ('std::result::Result', 0, 0))), c.err())


# -- building a bundle -----------------------------------------------------------------------
def request(c, what, k, num, requests, x, n):
    """The element x of action k comes from request q, for a q that is k or its image under a shuffle of all actions;
    obligations, and q."""
    xt = to_term(x)
    rt = to_term(requests)
    qs = [t.args[1] for t in sub_of(xt) if t.op == 'idx' and t.args[0] is rt]
    q = next((t for t in qs if t.op == 'pi' and t.args[2] is k), k)
    ob = [('the shuffle of the %ss is one of all actions' % what, q.args[1], num)] if q.op == 'pi' else []
    if q is k and k not in qs and any(rt in t.args and t.op != 'len' for t in sub_of(xt)):
        return [('%s %s' % ('each action has its', what), NOSHAPE)], None
    return ob + [('%s %s' % ('each action has its', what), implies(ult(q, n), same(c, x, seq_at(requests, q))))], q


def sub_of(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x not in seen:
            seen.add(x)
            stack.extend(x.args)
    return seen


def same(c, x, y):
    """Equality of two values by their terms, under the condition of the requests."""
    return eq(to_term(x), to_term(y))


CONV = 'ext:std::convert::TryFrom::try_from<V,i64>'


def bundle_havoc(c, rng, anchor, bt, spends, outputs):
    return from_term(uf('built_bundle', (M.rng_draw(c.ex, c.st, rng, 'bundle'),) + tuple(to_term(c.deep(x)) for x in (anchor, bt, spends, outputs))), c.rty)


@contract('builder::bundle', 'P02 P20 P21', kind='post', havoc=bundle_havoc, noinv=(SPEND, OUTPUT, 'keys::FullViewingKey', NOTE, 'address::Address'), cost=10, budget=200)
def _(c, args, ret):
    rng, anchor, bt, sp, ou = args
    anchor, bt, sp, ou = c.d(anchor), c.d(bt), as_seq(c.d(sp)), as_seq(c.d(ou))
    ns, no = seq_len(sp), seq_len(ou)
    r = c.d(ret)
    _, se, oe, _ = bt_parts(c, bt)
    num, ok = bt_num(c, bt, ns, no)
    j = fresh('i', 64)
    match = xm.mk_all(ns, vals.lam(j, anchor_opaque(c, seq_at(sp, j), anchor)))
    spends_off, outputs_off = and_(not_(se), not_(eq(ns, b64(0)))), and_(not_(oe), not_(eq(no, b64(0))))
    numc = uf('num_actions', (to_term(bt), ns, no), 64)
    if not isinstance(r, Adt):
        return [('shape of the result', NOSHAPE)]
    acts, infos = None, None
    if r.var == 1:
        d = discr_of(r.fs[0])
        et = ADTS[adt_name(r.fs[0].ty)]['v']
        is_ = lambda n: eq(d, b64(int(et[[v['n'] for v in et].index(n)]['d'])))
        return [('refuses for one of the stated reasons', or_(*[is_(x) for x in ('SpendsDisabled', 'AnchorMismatch', 'OutputsDisabled', 'BundleTypeNotSatisfiable', 'ValueSum')])),
                ('spends are refused only when disabled', implies(is_('SpendsDisabled'), spends_off)),
                ('outputs are refused only when disabled', implies(is_('OutputsDisabled'), outputs_off)),
                ('an anchor is refused only when it differs', implies(is_('AnchorMismatch'), not_(match))),
                ('requests are refused only when they do not fit the bundle type', implies(is_('BundleTypeNotSatisfiable'), not_(ok)))]
    ob = [('the requests fit the bundle type', ok), ('all anchors match', match)]
    o = c.d(r.fs[0])
    if not isinstance(o, Adt):
        return ob + [('shape of the result', NOSHAPE)]
    if o.var == 0:
        return ob + [('nothing is built only when no action is needed', num, b64(0))]
    b, meta = (c.d(x) for x in c.d(o.fs[0]).fs)
    aseq = as_seq(field(b, 'actions'))
    cseq = as_seq(field(field(field(b, 'authorization'), 'proof'), 'circuits'))
    ob += [('a bundle has an action', not_(eq(num, b64(0)))), ('as many actions as needed', seq_len(aseq), num), ('as many circuits as actions', seq_len(cseq), num),
           ('flags', field(b, 'flags'), bt_flags(c, bt)), ('anchor', field(b, 'anchor'), anchor)]
    k = fresh('i', 64)
    c.st.add(ult(k, numc))
    act, cir = seq_at(aseq, k), seq_at(cseq, k)
    built = [t for t in sub_of(to_term(act)) if t.op == 'built_action']
    if len(built) != 1:
        return ob + [('each action is built', NOSHAPE)]
    t, = built
    ai = from_term(t.args[0], ty(AINFO))
    bact = from_term(t, act.ty)
    cv = A(VC, M.gval(cv_point(v_net(ai), to_term(field(field(ai, 'rcv'), '0')))))
    ob += [('each action is as built: ' + f, field(act, f), cv if f == 'cv_net' else field(bact, f)) for f in ACTION_FIELDS]
    ob += [('each circuit is that of its action', to_term(cir), uf('built_circuit', t.args))]
    s, u = field(ai, 'spend'), field(ai, 'output')
    o1, q1 = request(c, 'spend', k, numc, sp, s, ns)
    o2, q2 = request(c, 'output', k, numc, ou, u, no)
    ob += o1 + o2
    if q1 is None or q2 is None:
        return ob
    ob += [('a padding spend is a dummy', or_(ult(q1, ns), and_(is_some(field(s, 'dummy_sk')), boolc(any(x.op == 'dummy_spend' for x in sub_of(to_term(s))))))),
           ('a padding spend has no value', or_(ult(q1, ns), eq(field(field(field(s, 'note'), 'value'), '0'), b64(0)))),
           ('a padding output has no value', or_(ult(q2, no), eq(field(field(u, 'value'), '0'), b64(0)))),
           ('a padding output has no outgoing key', or_(ult(q2, no), eq(discr_of(field(u, 'ovk')), b64(0))))]
    ms, mo = as_seq(field(meta, 'spend_indices')), as_seq(field(meta, 'output_indices'))
    ob += [('metadata of each spend', seq_len(ms), ns), ('metadata of each output', seq_len(mo), no),
           ('each spend is located in the metadata', implies(ult(q1, ns), eq(seq_at(ms, q1), k))),
           ('each output is located in the metadata', implies(ult(q2, no), eq(seq_at(mo, q2), k)))]
    infos = Seq([('lam', numc, k, ai)], ty(AINFO))
    ot = ty('std::option::Option<value::ValueSum>')
    total = c.fold(infos, opt_zero(), lambda st, acc, x: opt_add(c, acc, v_net(x)), ot)
    some, fits, i = as_balance(c, total, None, None)
    conv = uf(CONV, (i,))
    ob += [('the sum of the values is representable', some), ('the sum of the values is in the range of an amount', fits), ('the amount type takes the sum', eq(smart('discr', (conv,), 64), b64(0))),
           ('value balance', to_term(field(b, 'value_balance')), smart('fld', (conv,), to_term(field(b, 'value_balance')).sort, ('std::result::Result', 0, 0)))]
    bsk = M.sk_scalar(to_term(field(field(field(field(b, 'authorization'), 'sigs'), 'bsk'), '0')))
    ob += [('the binding key is the sum of the trapdoors', bsk, xm.fsum('Fq', numc, k, to_term(field(field(ai, 'rcv'), '0'))))]
    return ob


@contract('builder::Builder::build', 'P02 P20 P21')
def _(c, s, rng):
    b = c.d(s)
    return bundle_havoc(c, rng, *[field(b, f) for f in ('anchor', 'bundle_type', 'spends', 'outputs')])
