"""Contracts on the code that lays out the Action circuit: src/circuit.rs (synthesize), src/circuit/gadget.rs.

A contract states the exact sequence of calls made on the layouter (the ghost state of m_halo2.py): which cells are related
by which gadget, and which value of the witness the prover assigns where."""
from speclib import *
import m_halo2 as H
from s_keys import ak_pt
from s_bundle import CIRCUIT

G_ = 'circuit::gadget::'


def app(name, *args):
    return uf('h:' + name, tuple(to_term(a) if isinstance(a, V) else a for a in args))


class Trace:
    """What is done to one layouter or region."""

    def __init__(self, s):
        self.s, self.last, self.oks = s, None, []

    def ev(self, name, *args, n=0):
        t = app(name, self.s, *args)
        return self.done(t)

    def done(self, t):
        self.s, self.last = uf('h:after', (t,)), t
        return smart('fld', (t,), 'U', ('std::result::Result', 0, 0))

    def region(self, body):
        r = Trace(uf('h:region', (self.s,)))
        x = body(r)
        self.s, self.last = uf('h:after', (uf('h:assigned', (r.s,)),)), r.last
        return x

    def put(self, name, *args):
        self.s = H.push(self.s, app(name, self.s, *args))

    def assign(self, col, off, x):
        """Put the value x."""
        self.put('assign_advice', col, bvc(64, off), x)
        return Cell(H.at(self.s, col, bvc(64, off)), x)

    def copy(self, c, col, off):
        """Copy a cell."""
        self.put('copy_advice', c.id, col, bvc(64, off))
        return Cell(H.at(self.s, col, bvc(64, off)), c.x)

    def instance(self, inst, row, col, off):
        self.put('assign_advice_from_instance', inst, bvc(64, row), col, bvc(64, off))

    def enable(self, sel, off):
        self.put('enable', sel, bvc(64, off))

    def free(self, col, x):
        return self.region(lambda r: r.assign(col, 0, x))


class Cell:
    """An assigned cell: which one, and the value the prover put there."""

    def __init__(self, id, x):
        self.id, self.x = id, x


AC = 'halo2_proofs::circuit::AssignedCell'


def cell_from(v):
    """A cell that is an argument or the result of a gadget."""
    v = v if isinstance(v, V) else Opq(v, None)
    t = to_term(v)
    f = lambda i: project(v, i, None) if isinstance(v, Adt) else Opq(smart('fld', (t,), 'U', (AC, 0, i)), None)
    val = f(0)
    o = project(val, 0, None) if isinstance(val, Adt) else Opq(smart('fld', (to_term(val),), 'U', ('halo2_proofs::circuit::Value', 0, 0)), None)
    x = project(o, 0, None, 1) if isinstance(o, Adt) else Opq(smart('fld', (to_term(o),), 'U', ('std::option::Option', 1, 0)), None)
    return Cell(to_term(f(1)), to_term(x.v if isinstance(x, RefV) else x))


def cell_term(c, t):
    """The value of a cell made by an assignment."""
    fts = field_types(t, 0)
    ot = field_types(fts[0], 0)[0]
    return Adt(t, 0, [Adt(fts[0], 0, [Adt(ot, 1, [from_term(c.x, TY[fts[0]]['a'][0])])]), from_term(c.id, fts[1])] + [from_term(uf('h:phantom', (), sort_of(x)), x) for x in fts[2:]])


def trace(name, props, i, **kw):
    """spec(c, tr, *args) -> the payload of Ok; the layouter is argument i."""
    def d(f):
        def setup(ex, st, fn, args):
            if not isinstance(args[i], Ref):
                args[i] = Ref(ex.alloc(st, args[i]))
            return args

        def post(c, args, ret):
            q = M.root_ref(c.ex, args[i], c.st)
            st0 = c.st0
            tr = Trace(to_term(c.ex.deep(c.ex.read(st0, q.obj, q.proj), st0)))
            end = to_term(c.ex.deep(c.ex.read(c.st, q.obj, q.proj), c.st))
            ret = c.deep(ret)
            if isinstance(ret, Adt) and ret.var == 1 and len(ret.fs) == 1:
                e = to_term(ret.fs[0])
                return [('an error is one of a gadget', boolc(e.op == 'fld' and e.data == ('std::result::Result', 1, 0) and e.args[0].op.startswith('h:')))]
            want = f(c, tr, *args)
            out = [('the calls on the layouter and what is assigned', Opq(end, None), Opq(tr.s, None))]
            if isinstance(ret, Adt):
                return out + [('the result', ret.fs[0], from_term(want, tyof(ret.fs[0])) if isinstance(want, tm.T) else want)]
            t = to_term(ret)            # the Result of a gadget as it is
            return out + [('the result is that of a gadget', boolc(t.op.startswith('h:')))] if TY[tyof(ret)]['s'].startswith('std::result::Result<(),') else out + [('the result', Opq(t, None), Opq(tr.last, None))]

        def havoc(c, *args):
            ex, st = c.ex, c.st
            q, s = H.state(ex, args[i], st)
            info = None
            t = uf('h:' + name, (s,) + tuple(H.plain(ex, args, info, st, (i,))))
            H.after(ex, st, q, t)
            return from_term(t, c.rty)
        REG_add(name, props, setup=setup, havoc=havoc, kind='post', **kw)(post)
        return f
    return d


REG_add = contract


def boolc(b):
    return TRUE if b else FALSE


@trace(G_ + 'assign_free_advice', 'P05', 0)
def _(c, tr, lay, col, value):
    x = to_term(H.val(c.ex, value, c.st))
    ct = TY[c.rty]['a'][0]
    return cell_term(tr.free(to_term(c.d(col)), x), ct)


@trace(G_ + 'value_commit_orchard', 'P05', 0)
def _(c, tr, lay, ecc, v, rcv):
    ecc, v, rcv = [to_term(c.d(x)) for x in (ecc, v, rcv)]
    a = tr.ev('FixedPointShort::mul', app('FixedPointShort::from_inner', ecc, unit('constants::fixed_bases::ValueCommitV')), v)
    b = tr.ev('FixedPoint::mul', app('FixedPoint::from_inner', ecc, base('ValueCommitR')), rcv)
    return tr.ev('Point::add', fst(a), fst(b))


def unit(t):
    return to_term(Adt(ty(t), 0, []))


def base(n):
    t = ty('constants::fixed_bases::OrchardFixedBasesFull')
    return to_term(Adt(t, variant(t, n), []))


def fst(t):
    return smart('fld', (t,), 'U', ('tuple', 0, 0))


@trace(G_ + 'derive_nullifier', 'P05', 0)
def _(c, tr, lay, pos, add, ecc, rho, psi, cm, nk):
    pos, add, ecc, rho, psi, cm, nk = [to_term(c.d(x)) for x in (pos, add, ecc, rho, psi, cm, nk)]
    msg = to_term(Seq([('lit', [Opq(nk, None), Opq(rho, None)])], None))
    h = tr.ev('Hash::hash', tr.ev('Hash::init', pos), msg)
    s = tr.ev('AddInstruction::add', add, h, psi)
    p = tr.ev('FixedPointBaseField::mul', app('FixedPointBaseField::from_inner', ecc, unit('constants::fixed_bases::NullifierK')), s)
    return app('Point::extract_p', tr.ev('Point::add', cm, p))


@trace('<circuit::gadget::add_chip::AddChip as circuit::gadget::AddInstruction<pasta_curves::Fp>>::add', 'P05', 1)
def _(c, tr, chip, lay, a, b):
    cfg = c.f(chip, 'config')
    col = lambda n: to_term(field(cfg, n))
    x, y = cell_from(c.d(a)), cell_from(c.d(b))

    def body(r):
        r.enable(col('q_add'), 0)
        r.copy(x, col('a'), 0)
        r.copy(y, col('b'), 0)
        return r.assign(col('c'), 0, tm.poly_add('Fp', x.x, y.x))
    return cell_term(tr.region(body), TY[c.rty]['a'][0])


CFG = ('primary', 'q_orchard', 'advices', 'add_config', 'ecc_config', 'poseidon_config', 'merkle_config_1', 'merkle_config_2', 'sinsemilla_config_1', 'sinsemilla_config_2', 'commit_ivk_config', 'old_note_commit_config', 'new_note_commit_config')
# the slots of the public input
ANCHOR, CV_X, CV_Y, NF, RK_X, RK_Y, CMX, ENABLE_SPEND, ENABLE_OUTPUT = range(9)


@trace('<circuit::Circuit as halo2_proofs::plonk::Circuit<pasta_curves::Fp>>::synthesize', 'P05', 2, cost=4, budget=120)
def _(c, tr, cir, cfg, lay):
    cir, cfg = c.d(cir), c.d(cfg)
    K = lambda n: field(cfg, n)
    adv = lambda i: to_term(seq_at(as_seq(K('advices')), bvc(64, i)))
    w = {}
    for n in ADTS[CIRCUIT]['v'][0]['f']:
        w[n] = H.val(c.ex, field(cir, n), c.st)
    def W(n, *path):
        v = w[n]
        for f in path:
            v = field(v, f)
        return to_term(v)
    ecc = app('EccChip::construct', K('ecc_config'))
    sin = lambda i: app('SinsemillaChip::construct', K('sinsemilla_config_%d' % i))
    mer = lambda i: app('MerkleChip::construct', K('merkle_config_%d' % i))
    chip = lambda t, n: to_term(Adt(ty(t), 0, [K(n)]))
    inst = to_term(K('primary'))
    free = lambda col, x: tr.ev(G_ + 'assign_free_advice', adv(col), x)
    point = lambda kind, x: tr.ev(kind + '::new', ecc, x)
    scalar = lambda x: tr.ev('ScalarFixed::new', ecc, x)

    def expose(cell, row):
        tr.ev('constrain_instance', cell_from(cell).id, inst, bvc(64, row))

    def expose_point(p, x, y):
        q = app('Point::inner', p)
        expose(app('EccPoint::x', q), x)
        expose(app('EccPoint::y', q), y)
    # the witness
    tr.ev('SinsemillaChip::load', K('sinsemilla_config_1'))
    psi_old = free(0, W('psi_old'))
    rho_old = free(0, W('rho_old', '0'))
    cm_old = point('Point', W('cm_old', '0'))
    gd_old = point('NonIdentityPoint', W('g_d_old', '0'))
    ak = point('NonIdentityPoint', ak_pt(w['ak']))
    nk = free(0, W('nk', '0'))
    v_old = free(0, W('v_old'))
    v_new = free(0, W('v_new'))
    # the authentication path of the old note's commitment
    crh = ty('constants::sinsemilla::OrchardHashDomains')
    nodes = M.seq_map(as_seq(w['path']), lambda v: field(v, '0'))
    path = app('MerklePath::construct', Seq([('lit', [Opq(mer(1), None), Opq(mer(2), None)])], None), to_term(Adt(crh, variant(crh, 'MerkleCrh'), [])), W('pos'), nodes)
    root = tr.ev('MerklePath::calculate_root', path, app('X::inner', app('Point::extract_p', cm_old)))
    # the value commitment: the net value as magnitude and sign
    a, b = W('v_old', '0'), W('v_new', '0')
    neg = ult(a, b)
    mag = free(9, M._u2f('Fp', ite(neg, bvsub(b, a), bvsub(a, b))))
    one = tm.poly_const('Fp', 1)
    sgn = free(9, ite(neg, tm.poly_neg('Fp', one), one))
    v = tr.ev('ScalarFixedShort::new', ecc, Tup([Opq(mag, None), Opq(sgn, None)]))
    rcv = scalar(W('rcv', '0'))
    cv = tr.ev(G_ + 'value_commit_orchard', ecc, v, rcv)
    expose_point(cv, CV_X, CV_Y)
    # the nullifier
    nf = tr.ev(G_ + 'derive_nullifier', app('Pow5Chip::construct', K('poseidon_config')), chip('circuit::gadget::add_chip::AddChip', 'add_config'), ecc, rho_old, psi_old, cm_old, nk)
    nf_cell = app('X::inner', nf)
    expose(nf_cell, NF)
    # spend authority
    alpha = scalar(W('alpha'))
    r = tr.ev('FixedPoint::mul', app('FixedPoint::from_inner', ecc, base('SpendAuthG')), alpha)
    expose_point(tr.ev('Point::add', fst(r), ak), RK_X, RK_Y)
    # the address of the old note
    rivk = scalar(W('rivk', '0'))
    ivk = tr.ev('circuit::commit_ivk::gadgets::commit_ivk', sin(1), ecc, chip('circuit::commit_ivk::CommitIvkChip', 'commit_ivk_config'), app('X::inner', app('NonIdentityPoint::extract_p', ak)), nk, rivk)
    ivk = tr.ev('ScalarVar::from_base', ecc, app('X::inner', ivk))
    pkd = tr.ev('NonIdentityPoint::mul', gd_old, ivk)
    pk_old = point('NonIdentityPoint', W('pk_d_old', '0', '0'))
    tr.ev('Point::constrain_equal', fst(pkd), pk_old)
    # the commitment of the old note
    rcm_old = scalar(W('rcm_old', '0'))
    ni = lambda p: app('NonIdentityPoint::inner', p)
    nc = 'circuit::note_commit::gadgets::note_commit'
    ncc = lambda n: chip('circuit::note_commit::NoteCommitChip', n)
    cm = tr.ev(nc, sin(1), ecc, ncc('old_note_commit_config'), ni(gd_old), ni(pk_old), v_old, rho_old, psi_old, rcm_old)
    tr.ev('Point::constrain_equal', cm, cm_old)
    # the commitment of the new note, whose rho is the nullifier
    gd_new = point('NonIdentityPoint', W('g_d_new', '0'))
    pk_new = point('NonIdentityPoint', W('pk_d_new', '0', '0'))
    psi_new = free(0, W('psi_new'))
    rcm_new = scalar(W('rcm_new', '0'))
    cm = tr.ev(nc, sin(2), ecc, ncc('new_note_commit_config'), ni(gd_new), ni(pk_new), v_new, nf_cell, psi_new, rcm_new)
    expose(app('X::inner', app('Point::extract_p', cm)), CMX)

    # the remaining checks
    def body(r):
        for i, x in enumerate((v_old, v_new, mag, sgn, root)):
            r.copy(cell_from(x), adv(i), 0)
        for i, row in ((5, ANCHOR), (6, ENABLE_SPEND), (7, ENABLE_OUTPUT)):
            r.instance(inst, row, adv(i), 0)
        r.enable(to_term(K('q_orchard')), 0)
    tr.region(body)
    return Tup([])


# -- the pieces of hashed messages, in commit_ivk.rs and note_commit.rs ------------------------------------
IVK, NC = 'circuit::commit_ivk::', 'circuit::note_commit::'
FPV = 'halo2_proofs::circuit::Value'


def T(v):
    return to_term(v) if isinstance(v, V) else v


def rng(lo, hi):
    return to_term(Adt(ty('std::ops::Range<usize>'), 0, [bvc(64, lo), bvc(64, hi)]))


def held(t):
    """What a known Value holds."""
    o = smart('fld', (t,), 'U', (FPV, 0, 0))
    return smart('fld', (o,), 'U', ('std::option::Option', 1, 0))


def rc_cell(rc):
    """The cell of a range-constrained cell."""
    return cell_from(app('RangeConstrained::inner', rc))


def rc_val(rc):
    return held(app('RangeConstrained::inner', rc))


def piece(p):
    """The cell of a message piece."""
    return cell_from(app('MessagePiece::cell_value', app('MessagePiece::inner', p)))


def bits(x, lo, hi):
    return app('RangeConstrained::bitrange_of', x, rng(lo, hi))


def short(tr, cfg, x, lo, hi):
    return tr.ev('lookup_range_check::witness_short', cfg, x, rng(lo, hi))


def subpieces(tr, chip, *ps):
    return tr.ev('MessagePiece::from_subpieces', chip, Seq([('lit', [Opq(p, None) for p in ps])], None))


def known_bits(rc):
    """The value of a range-constrained cell, as a range-constrained value."""
    return app('RangeConstrained::value', rc)


def cells(c, *vs):
    return [cell_from(c.d(v)) for v in vs]


def terms(c, *vs):
    return [to_term(c.d(v)) for v in vs]


def lin(*xs):
    """sum of (coefficient, term)"""
    acc = tm.poly_const('Fp', 0)
    for k, x in xs:
        acc = tm.poly_add('Fp', acc, tm.poly_mul('Fp', tm.poly_const('Fp', k), x))
    return acc


T_P = 45560315531419706090280762371685220353     # p = 2^254 + T_P


def pairup(*ts):
    return Tup([Opq(t, None) for t in ts])


def sums(tr, cfg, x, words, strict):
    """The running sum over `words` 10-bit words of x."""
    zs = tr.ev('LookupRangeCheckConfig::witness_check', cfg, x, bvc(64, words), boolc(strict))
    return lambda i: to_term(seq_at(as_seq(Opq(app('RunningSum::deref', zs), None)), bvc(64, i)))


def canon(name, i, words, shift, low, k, arity):
    """(x', z) where x' = low + 2^k * high + 2^shift - t_P is decomposed into its 10-bit words and z is what remains."""
    @trace(name, 'P05', i)
    def _(c, tr, cfg, lay, *rest):
        if low:
            lo = rc_cell(to_term(c.d(rest[0]))).x
            hi = cell_from(c.d(rest[1])).x
            x = lin((1, lo), (2 ** k, hi), (2 ** shift - T_P, tm.poly_const('Fp', 1)))
        else:
            x = lin((1, cell_from(c.d(rest[0])).x), (2 ** shift - T_P, tm.poly_const('Fp', 1)))
        z = sums(tr, to_term(c.d(cfg)), x, words, False)
        return pairup(z(0), z(words))


canon(IVK + 'gadgets::ak_canonicity', 1, 13, 130, False, 0, 3)
canon(IVK + 'gadgets::nk_canonicity', 1, 14, 140, True, 5, 4)
canon(NC + 'gadgets::canon_bitshift_130', 1, 13, 130, False, 0, 3)
canon(NC + 'gadgets::pkd_x_canonicity', 1, 14, 140, True, 4, 4)
canon(NC + 'gadgets::rho_canonicity', 1, 14, 140, True, 4, 4)
canon(NC + 'gadgets::psi_canonicity', 1, 13, 130, True, 9, 4)


def val_of(c, v):
    """The field element of a NoteValue's cell."""
    return M._u2f('Fp', to_term(from_term(smart('fld', (cell_from(c.d(v)).x,), 64, ('value::NoteValue', 0, 0)), ty('u64'))))


@trace(NC + 'DecomposeB::decompose', 'P05', 2)
def _(c, tr, cfg, chip, lay, gd, pkd):
    cfg, chip, gd, pkd = terms(c, cfg, chip, gd, pkd)
    x, y = coord('x', gd), coord('y', gd)
    b0 = short(tr, cfg, x, 250, 254)
    b1, b2 = bits(x, 254, 255), bits(y, 0, 1)
    b3 = short(tr, cfg, coord('x', pkd), 0, 4)
    b = subpieces(tr, chip, known_bits(b0), b1, b2, known_bits(b3))
    return pairup(b, b0, b1, b2, b3)


def coord(n, p):
    return cell_from(app('NonIdentityEccPoint::' + n, p)).x


@trace(NC + 'DecomposeD::decompose', 'P05', 2)
def _(c, tr, cfg, chip, lay, pkd, value):
    v = val_of(c, value)
    cfg, chip, pkd = terms(c, cfg, chip, pkd)
    d0, d1 = bits(coord('x', pkd), 254, 255), bits(coord('y', pkd), 0, 1)
    d2 = short(tr, cfg, v, 0, 8)
    d = subpieces(tr, chip, d0, d1, known_bits(d2), bits(v, 8, 58))
    return pairup(d, d0, d1, d2)


@trace(NC + 'DecomposeE::decompose', 'P05', 2)
def _(c, tr, cfg, chip, lay, value, rho):
    v = val_of(c, value)
    cfg, chip = terms(c, cfg, chip)
    e0 = short(tr, cfg, v, 58, 64)
    e1 = short(tr, cfg, cell_from(c.d(rho)).x, 0, 4)
    return pairup(subpieces(tr, chip, known_bits(e0), known_bits(e1)), e0, e1)


@trace(NC + 'DecomposeG::decompose', 'P05', 2)
def _(c, tr, cfg, chip, lay, rho, psi):
    rho, psi = cell_from(c.d(rho)).x, cell_from(c.d(psi)).x
    cfg, chip = terms(c, cfg, chip)
    g0 = bits(rho, 254, 255)
    g1 = short(tr, cfg, psi, 0, 9)
    return pairup(subpieces(tr, chip, g0, known_bits(g1), bits(psi, 9, 249)), g0, g1)


@trace(NC + 'DecomposeH::decompose', 'P05', 2)
def _(c, tr, cfg, chip, lay, psi):
    psi = cell_from(c.d(psi)).x
    cfg, chip = terms(c, cfg, chip)
    h0, h1 = short(tr, cfg, psi, 249, 254), bits(psi, 254, 255)
    return pairup(subpieces(tr, chip, known_bits(h0), h1, bits(tm.poly_const('Fp', 0), 0, 4)), h0, h1)


def gate(name, sel, layout, ret=None):
    """A gate's region: `layout` has for each argument after the layouter (kind, column, offset); kind is 'cell', 'rc' (a
    range-constrained cell), 'rv' (a range-constrained value, assigned), 'piece', 'value', 'x' (a point's x-coordinate), in the
    order of copying; `args` are given by index."""
    @trace(name, 'P05', 1)
    def _(c, tr, cfg, lay, *args):
        cfg = c.d(cfg)
        col = lambda n: to_term(field(cfg, n))

        def body(r):
            r.enable(col(sel), 0)
            out = {}
            for i, kind, cl, off in layout:
                t = to_term(c.d(args[i])) if kind != 'cell' else None
                if kind == 'rv':
                    out[i] = r.assign(col(cl), off, rc_val(t))
                    continue
                x = dict(cell=lambda: cell_from(c.d(args[i])), rc=lambda: rc_cell(t), piece=lambda: piece(t), x=lambda: cell_from(app('NonIdentityEccPoint::x', t)))[kind]()
                out[i] = r.copy(x, col(cl), off)
            return out[ret] if ret is not None else None
        x = tr.region(body)
        return cell_term(x, TY[c.rty]['a'][0]) if ret is not None else Tup([])


L, Mi, R, Z = 'col_l', 'col_m', 'col_r', 'col_z'
gate(NC + 'DecomposeB::assign', 'q_notecommit_b', [(0, 'piece', L, 0), (1, 'rc', Mi, 0), (2, 'rv', R, 0), (3, 'rc', Mi, 1), (4, 'rc', R, 1)], 2)
gate(NC + 'DecomposeD::assign', 'q_notecommit_d', [(0, 'piece', L, 0), (1, 'rv', Mi, 0), (2, 'rc', R, 0), (3, 'rc', Mi, 1), (4, 'cell', R, 1)], 1)
gate(NC + 'DecomposeE::assign', 'q_notecommit_e', [(0, 'piece', L, 0), (1, 'rc', Mi, 0), (2, 'rc', R, 0)])
gate(NC + 'DecomposeG::assign', 'q_notecommit_g', [(0, 'piece', L, 0), (1, 'rv', Mi, 0), (2, 'rc', L, 1), (3, 'cell', Mi, 1)], 1)
gate(NC + 'DecomposeH::assign', 'q_notecommit_h', [(0, 'piece', L, 0), (1, 'rc', Mi, 0), (2, 'rv', R, 0)], 2)
gate(NC + 'GdCanonicity::assign', 'q_notecommit_g_d', [(0, 'x', L, 0), (2, 'rc', Mi, 0), (3, 'cell', Mi, 1), (1, 'piece', R, 0), (4, 'cell', R, 1), (5, 'cell', Z, 0), (6, 'cell', Z, 1)])
gate(NC + 'PkdCanonicity::assign', 'q_notecommit_pk_d', [(0, 'x', L, 0), (1, 'rc', Mi, 0), (3, 'cell', Mi, 1), (2, 'piece', R, 0), (4, 'cell', R, 1), (5, 'cell', Z, 0), (6, 'cell', Z, 1)])
gate(NC + 'ValueCanonicity::assign', 'q_notecommit_value', [(0, 'cell', L, 0), (1, 'rc', Mi, 0), (2, 'cell', R, 0), (3, 'rc', Z, 0)])
gate(NC + 'RhoCanonicity::assign', 'q_notecommit_rho', [(0, 'cell', L, 0), (1, 'rc', Mi, 0), (3, 'cell', Mi, 1), (2, 'piece', R, 0), (4, 'cell', R, 1), (5, 'cell', Z, 0), (6, 'cell', Z, 1)])
gate(NC + 'PsiCanonicity::assign', 'q_notecommit_psi', [(0, 'cell', L, 0), (3, 'rc', L, 1), (1, 'rc', Mi, 0), (4, 'cell', Mi, 1), (2, 'cell', R, 0), (5, 'cell', R, 1), (6, 'cell', Z, 0), (7, 'cell', Z, 1)])


@trace(NC + 'YCanonicity::assign', 'P05', 1)
def _(c, tr, cfg, lay, y, lsb, k0, k2, k3, j, z1, z13, jp, z13p):
    adv = lambda i: to_term(seq_at(as_seq(c.f(cfg, 'advices')), bvc(64, i)))
    lsb, k0, k2, k3 = terms(c, lsb, k0, k2, k3)
    y, j, z1, z13, jp, z13p = cells(c, y, j, z1, z13, jp, z13p)

    def body(r):
        r.enable(to_term(c.f(cfg, 'q_y_canon')), 0)
        r.copy(y, adv(5), 0)
        x = r.assign(adv(6), 0, rc_val(lsb))
        r.copy(rc_cell(k0), adv(7), 0)
        r.copy(rc_cell(k2), adv(8), 0)
        r.assign(adv(9), 0, rc_val(k3))
        for i, z in enumerate((j, z1, z13, jp, z13p)):
            r.copy(z, adv(5 + i), 1)
        return x
    x = tr.region(body)
    return app('RangeConstrained::unsound_unchecked', cell_term(x, cell_ty()), uf('h:RangeConstrained::num_bits', (lsb,), 64))


def cell_ty():
    return [i for i, t in enumerate(TY) if t['s'] == AC + '<pasta_curves::Fp, pasta_curves::Fp>'][0]


@trace(NC + 'gadgets::y_canonicity', 'P05', 2)
def _(c, tr, cfg, gate, lay, y, lsb):
    cfg, gate, yt, lsb = terms(c, cfg, gate, y, lsb)
    y = cell_from(c.d(y))
    k0 = short(tr, cfg, y.x, 1, 10)
    k1 = bits(y.x, 10, 250)
    k2 = short(tr, cfg, y.x, 250, 254)
    k3 = bits(y.x, 254, 255)
    z = sums(tr, cfg, lin((1, rc_val(lsb)), (2, rc_cell(k0).x), (1024, rc_val(k1))), 25, True)
    p = tr.ev(NC + 'gadgets::canon_bitshift_130', cfg, z(0))
    return tr.ev(NC + 'YCanonicity::assign', gate, yt, lsb, k0, k2, k3, z(0), z(1), z(13), nth(p, 0), nth(p, 1))


def nth(t, i):
    return smart('fld', (t,), 'U', ('tuple', 0, i))


def lookup_config(chip):
    return app('SinsemillaConfig::lookup_config', app('config', chip))


def message(chip, *ps):
    return app('Message::from_pieces', chip, Seq([('lit', [Opq(p, None) for p in ps])], None))


def domain(chip, ecc, n):
    t = ty('constants::sinsemilla::OrchardCommitDomains')
    return app('CommitDomain::new', chip, ecc, Adt(t, variant(t, n), []))


def sum_at(zs, i, j):
    """The j-th running sum of the i-th piece hashed."""
    return to_term(seq_at(as_seq(Opq(to_term(seq_at(as_seq(Opq(zs, None)), bvc(64, i))), None)), bvc(64, j)))


INDEX = dict(maypanic=('index out of bounds',), note='that the hash returns a running sum for each piece, of the length of the piece, is assumed')


@trace(IVK + 'gadgets::commit_ivk', 'P05', 3, **INDEX)
def _(c, tr, chip, ecc, gate, lay, ak, nk, rivk):
    chip, ecc, akt, nkt, rivk = terms(c, chip, ecc, ak, nk, rivk)
    ak, nk = cells(c, ak, nk)
    cfg = lookup_config(chip)
    a = subpieces(tr, chip, bits(ak.x, 0, 250))
    b0 = short(tr, cfg, ak.x, 250, 254)
    b1 = bits(ak.x, 254, 255)
    b2 = short(tr, cfg, nk.x, 0, 5)
    b = subpieces(tr, chip, known_bits(b0), b1, known_bits(b2))
    cc = subpieces(tr, chip, bits(nk.x, 5, 245))
    d0 = short(tr, cfg, nk.x, 245, 254)
    d1 = bits(nk.x, 254, 255)
    d = subpieces(tr, chip, known_bits(d0), d1)
    h = tr.ev('CommitDomain::short_commit', domain(chip, ecc, 'CommitIvk'), message(chip, a, b, cc, d), rivk)
    ivk, zs = nth(h, 0), nth(h, 1)
    cv = lambda p: app('MessagePiece::cell_value', app('MessagePiece::inner', p))
    p = tr.ev(IVK + 'gadgets::ak_canonicity', cfg, cv(a))
    q = tr.ev(IVK + 'gadgets::nk_canonicity', cfg, b2, cv(cc))
    parts = dict(a=cv(a), b=cv(b), c=cv(cc), d=cv(d), ak=akt, nk=nkt, b_0=b0, b_1=b1, b_2=b2, d_0=d0, d_1=d1, z13_a=sum_at(zs, 0, 13),
                 a_prime=nth(p, 0), z13_a_prime=nth(p, 1), z13_c=sum_at(zs, 2, 13), b2_c_prime=nth(q, 0), z14_b2_c_prime=nth(q, 1))
    t = ty(IVK + 'GateCells')
    tr.ev(IVK + 'CommitIvkConfig::assign_gate', to_term(c.f(gate, 'config')), Adt(t, 0, [Opq(parts[n], None) for n in ADTS[IVK + 'GateCells']['v'][0]['f']]))
    return ivk


@trace(IVK + 'CommitIvkConfig::assign_gate', 'P05', 1)
def _(c, tr, cfg, lay, g):
    adv = lambda i: to_term(seq_at(as_seq(c.f(cfg, 'advices')), bvc(64, i)))
    g = c.d(g)
    f = lambda n: field(g, n)
    cl = lambda n: cell_from(f(n))
    rc = lambda n: rc_cell(to_term(f(n)))

    def body(r):
        r.enable(to_term(c.f(cfg, 'q_commit_ivk')), 0)
        for off, row in enumerate((('ak', 'a', 'b', 'b_0', 'b_1', 'b_2', 'z13_a', 'a_prime', 'z13_a_prime'),
                                   ('nk', 'c', 'd', 'd_0', 'd_1', None, 'z13_c', 'b2_c_prime', 'z14_b2_c_prime'))):
            for i, n in enumerate(row):
                if n in ('b_1', 'd_1'):
                    r.assign(adv(i), off, rc_val(to_term(f(n))))
                elif n is not None:
                    r.copy(rc(n) if n in ('b_0', 'b_2', 'd_0') else cl(n), adv(i), off)
    tr.region(body)
    return Tup([])


@trace(NC + 'gadgets::note_commit', 'P05', 0, **INDEX)
def _(c, tr, lay, chip, ecc, gate, gd, pkd, value, rho, psi, rcm):
    g = c.f(gate, 'config')
    cf = lambda n: to_term(field(g, n))
    chip, ecc, gd, pkd, vt, rt, pt, rcm = terms(c, chip, ecc, gd, pkd, value, rho, psi, rcm)
    r = cell_from(c.d(rho))
    cfg = lookup_config(chip)
    a = subpieces(tr, chip, bits(coord('x', gd), 0, 250))
    t = tr.ev(NC + 'DecomposeB::decompose', cfg, chip, gd, pkd)
    b, b0, b1, b2, b3 = [nth(t, i) for i in range(5)]
    cc = subpieces(tr, chip, bits(coord('x', pkd), 4, 254))
    t = tr.ev(NC + 'DecomposeD::decompose', cfg, chip, pkd, vt)
    d, d0, d1, d2 = [nth(t, i) for i in range(4)]
    t = tr.ev(NC + 'DecomposeE::decompose', cfg, chip, vt, rt)
    e, e0, e1 = [nth(t, i) for i in range(3)]
    f = subpieces(tr, chip, bits(r.x, 4, 254))
    t = tr.ev(NC + 'DecomposeG::decompose', cfg, chip, rt, pt)
    gg, g0, g1 = [nth(t, i) for i in range(3)]
    t = tr.ev(NC + 'DecomposeH::decompose', cfg, chip, pt)
    h, h0, h1 = [nth(t, i) for i in range(3)]
    yc = lambda p, lsb: tr.ev(NC + 'gadgets::y_canonicity', cfg, cf('y_canon'), app('NonIdentityEccPoint::y', p), lsb)
    b2, d1 = yc(gd, b2), yc(pkd, d1)
    t = tr.ev('CommitDomain::commit', domain(chip, ecc, 'NoteCommit'), message(chip, a, b, cc, d, e, f, gg, h), rcm)
    cm, zs = nth(t, 0), nth(t, 1)
    cv = lambda p: app('MessagePiece::cell_value', app('MessagePiece::inner', p))
    z = lambda i, j: sum_at(zs, i, j)
    bounds = lambda n, *xs: [nth(tr_, i) for tr_ in [tr.ev(NC + 'gadgets::' + n, cfg, *xs)] for i in range(2)]
    ap, zap = bounds('canon_bitshift_130', cv(a))
    bp, zbp = bounds('pkd_x_canonicity', b3, cv(cc))
    ep, zep = bounds('rho_canonicity', e1, cv(f))
    gp, zgp = bounds('psi_canonicity', g1, z(6, 1))
    put = lambda n, k, *xs: tr.ev(NC + n + '::assign', cf(k), *xs)
    b1 = put('DecomposeB', 'b', b, b0, b1, b2, b3)
    d0 = put('DecomposeD', 'd', d, d0, d1, d2, z(3, 1))
    put('DecomposeE', 'e', e, e0, e1)
    g0 = put('DecomposeG', 'g', gg, g0, g1, z(6, 1))
    h1 = put('DecomposeH', 'h', h, h0, h1)
    put('GdCanonicity', 'g_d', gd, a, b0, b1, ap, z(0, 13), zap)
    put('PkdCanonicity', 'pk_d', pkd, b3, cc, d0, bp, z(2, 13), zbp)
    put('ValueCanonicity', 'value', vt, d2, z(3, 1), e0)
    put('RhoCanonicity', 'rho', rt, e1, f, g0, ep, z(5, 13), zep)
    put('PsiCanonicity', 'psi', pt, g1, z(6, 1), h0, h1, gp, z(6, 13), zgp)
    return cm
