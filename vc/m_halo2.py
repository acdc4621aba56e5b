"""Assumed contracts on halo2_proofs' circuit API and halo2_gadgets, for the code that lays out the Action circuit.

Laying out a circuit is a sequence of calls on a layouter.  Its ghost state is the term of everything done to it so far: a call
of a gadget `g` on arguments `xs` yields `h:g(state, xs)` (a Result) and leaves the state `h:after` of that.  A region is the same,
with the calls on it nested in the state, where only the order of copies is kept.  Constraints are therefore compared as what they are to halo2: the exact sequence of
calls with the cells they relate, and every value the prover assigns.  Values are those of the prover (known): key generation,
which has none, is not modelled.  A gadget may fail; the layouter itself does not fail beyond that."""
import re
import models as M
from values import *
import values as vals
import term as tm

OPTION = 'std::option::Option'
SKIP = re.compile(r'Layouter|Region')


def short(name):
    """halo2_gadgets::ecc::Point::<C, EccChip>::add -> Point::add"""
    d, out = 0, ''
    for i, ch in enumerate(name):
        if ch == '<':
            d += 1
        elif ch == '>' and name[i - 1] != '-':
            d -= 1
        elif d == 0:
            out += ch
    ps = [p for p in out.split('::') if p]
    return '::'.join(ps[-2:])


def known(vt, x):
    if vt is None:
        return Adt(None, 0, [Adt(None, 1, [x])])
    ot = field_types(vt, 0)[0]
    return Adt(vt, 0, [Adt(ot, 1, [x])])


def val_type(vt):
    return TY[vt]['a'][0] if vt is not None and TY[vt]['k'] == 'adt' else None


def val(ex, v, st):
    """What a known Value holds."""
    v = ex.full_deref(v, st)
    vt = v.ty if isinstance(v, (Opq, Adt)) else None
    ot = field_types(vt, 0)[0] if vt is not None and vt in range(len(TY)) and TY[vt]['k'] == 'adt' else None
    o = project(v, 0, ot)
    if isinstance(o, Adt) and o.var == 0:
        raise Unsupported('a Value without a value')
    return project(o, 0, val_type(vt), 1)


def state(ex, ref, st):
    q = M.root_ref(ex, ref, st)
    if q is None:
        raise Unsupported('layouter without a location')
    return q, to_term(ex.deep(ex.read(st, q.obj, q.proj), st))


def after(ex, st, q, t):
    cur = ex.read(st, q.obj, q.proj)
    ex.write(st, q.obj, q.proj, Opq(uf('h:after', (t,)), cur.ty if isinstance(cur, Opq) else None))


# A region: which selectors are enabled and which values assigned does not depend on the order; the order of copies is kept.
RANK = {'h:enable': 0, 'h:assign_advice': 1}


def push(s, t):
    """The region's state s followed by the event t (whose first argument is put to be s)."""
    r = RANK.get(t.op, 2)
    if s.op == 'h:after':
        p = s.args[0]
        if r < 2 and (RANK.get(p.op, 2), key(p)) > (r, key(t)):
            return uf('h:after', (uf(p.op, (push(p.args[0], t),) + p.args[1:]),))
    return uf('h:after', (uf(t.op, (s,) + t.args[1:]),))


def key(t):
    return '' if RANK.get(t.op, 2) == 2 else ' '.join(repr(x) for x in t.args[1:3])


def root(s):
    while s.op == 'h:after':
        s = s.args[0].args[0]
    return s


def in_region(ex, st, q, s, name, args):
    """-> the event, independent of what else is in the region"""
    t = uf('h:' + name, (root(s),) + tuple(args))
    cur = ex.read(st, q.obj, q.proj)
    ex.write(st, q.obj, q.proj, Opq(push(s, t), cur.ty if isinstance(cur, Opq) else None))
    return t


def at(s, col, off):
    return uf('h:cell', (root(s), col, off))


def plain(ex, a, info, st, skip=()):
    out = []
    for i, x in enumerate(a):
        if i in skip:
            continue
        x = ex.full_deref(x, st)
        if isinstance(x, (Clo, PyFn)):
            continue
        if adt_name(getattr(x, 'ty', None)) == 'halo2_proofs::circuit::Value':
            x = ex.full_deref(val(ex, x, st), st)
        out.append(to_term(ex.deep(x, st)))
    return out


def on_state(info, a):
    for i, t in enumerate(info.argtys):
        if t is not None and SKIP.search(TY[t]['s']) and TY[t]['k'] != 'closure':
            return i
    return None


def call(ex, st, a, info, name=None):
    name = name or short(info.name)
    i = on_state(info, a)
    if i is None:
        return mkval('h:' + name, plain(ex, a, info, st), info.ty)
    q, s = state(ex, a[i], st)
    t = uf('h:' + name, (s,) + tuple(plain(ex, a, info, st, (i,))))
    after(ex, st, q, t)
    return from_term(t, info.ty)


@M.pattern(r'(?:.*for )?<?halo2_gadgets::(?!.*primitives::(?:CommitDomain|HashDomain|Hash::))(?:ecc|sinsemilla|poseidon|utilities)::.*')
def _(ex, st, a, info, m):
    n = short(info.name)
    if n == 'Clone::clone' or info.name.endswith('::clone'):
        return NotImplemented
    if 'FieldValue' in info.name and adt_name(tyof(a[0], ex, st)) == 'halo2_proofs::circuit::Value':
        return known(info.ty, RefV(val(ex, a[0], st)))
    if 'RunningSum' in info.name and n == 'deref':
        return running_sum(ex, st, a, info)
    return call(ex, st, a, info, n)


def running_sum(ex, st, a, info):
    """The running sum of n words has n + 1 entries."""
    t = to_term(ex.deep(ex.full_deref(a[0], st), st))
    v = from_term(uf('h:RunningSum::deref', (t,)), TY[info.ty]['e'])
    if t.op == 'fld' and t.args[0].op == 'h:LookupRangeCheckConfig::witness_check':
        n = t.args[0].args[3]
        if is_c(n):
            st.add(eq(seq_len(as_seq(v)), bvc(64, n.data + 1)))
    return RefV(v)


@M.pattern(r'(?:.* as )?halo2_proofs::circuit::Layouter(?:<.*>)?>?::namespace|halo2_proofs::circuit::Layouter::namespace')
def _(ex, st, a, info, m):
    return a[0]


@M.pattern(r'(?:.* as )?halo2_proofs::circuit::Layouter(?:<.*>)?>?::constrain_instance|halo2_proofs::circuit::Layouter::constrain_instance')
def _(ex, st, a, info, m):
    return call(ex, st, a, info, 'constrain_instance')


@M.pattern(r'(?:.* as )?halo2_proofs::circuit::Layouter(?:<.*>)?>?::assign_region|halo2_proofs::circuit::Layouter::assign_region')
def _(ex, st, a, info, m):
    q, s = state(ex, a[0], st)
    obj = ex.alloc(st, Opq(uf('h:region', (s,)), None))
    outs = []
    for s1, r in ex.call_value(a[2], [Ref(obj)], st, info.ty):
        end = to_term(ex.deep(ex.read(s1, obj, ()), s1))
        after(ex, s1, q, uf('h:assigned', (end,)))
        outs.append((s1, r))
    return outs


@M.pattern(r"halo2_proofs::circuit::Region::<'r, F>::assign_advice")
def _(ex, st, a, info, m):
    """region, annotation, column, offset, value"""
    outs = []
    ct = TY[info.ty]['a'][0]        # Result<AssignedCell<VR, F>, Error>
    fts = field_types(ct, 0)
    for s1, v in ex.call_value(a[4], [], st, fts[0]):
        q, s = state(ex, a[0], s1)
        x = val(ex, v, s1)
        xt = to_term(ex.deep(ex.full_deref(x, s1), s1))
        col, off = plain(ex, a[2:4], info, s1)
        t = in_region(ex, s1, q, s, 'assign_advice', (col, off, xt))
        outs += assigned(ex, s1, t, info.ty, known(fts[0], x), at(s, col, off))
    return outs


def assigned(ex, st, t, rty, v, cell):
    """Ok(the cell), or the error of halo2."""
    ct = TY[rty]['a'][0]
    fts = field_types(ct, 0)
    ok = eq(smart('discr', (t,), 64), bvc(64, 0))
    cell = Adt(ct, 0, [v, from_term(cell, fts[1])] + [from_term(uf('h:phantom', (), sort_of(x)), x) for x in fts[2:]])
    return [(st.copy().add(ok), Adt(rty, 0, [cell])), (st.copy().add(not_(ok)), Adt(rty, 1, [project(Opq(t, rty), 0, TY[rty]['a'][1], 1)]))]


@M.pattern(r"halo2_proofs::circuit::Region::<'r, F>::assign_advice_from_instance")
def _(ex, st, a, info, m):
    q, s = state(ex, a[0], st)
    t = in_region(ex, st, q, s, 'assign_advice_from_instance', plain(ex, a[2:], info, st))
    return from_term(t, info.ty)


def cell_of(ex, v, st):
    """The identity of a cell: without the value and the phantom field."""
    v = ex.full_deref(v, st)
    return project(v, 1, field_types(v.ty, 0)[1] if isinstance(v, (Opq, Adt)) and v.ty is not None else None)


@M.pattern(r'halo2_proofs::circuit::AssignedCell::<V, F>::copy_advice')
def _(ex, st, a, info, m):
    """cell, annotation, region, column, offset"""
    q, s = state(ex, a[2], st)
    v = ex.full_deref(a[0], st)
    col, off = plain(ex, a[3:], info, st)
    t = in_region(ex, st, q, s, 'copy_advice', (to_term(ex.deep(cell_of(ex, a[0], st), st)), col, off))
    fts = field_types(TY[info.ty]['a'][0], 0)
    return assigned(ex, st, t, info.ty, project(v, 0, fts[0]), at(s, col, off))


@M.pattern(r'halo2_proofs::circuit::AssignedCell::<V, F>::(cell|value)')
def _(ex, st, a, info, m):
    v = ex.full_deref(a[0], st)
    if m.group(1) == 'cell':
        return cell_of(ex, a[0], st)
    x = val(ex, project(v, 0, field_types(v.ty, 0)[0]), st)
    return known(info.ty, RefV(x))


@M.pattern(r'halo2_proofs::plonk::(?:circuit::)?Selector::enable')
def _(ex, st, a, info, m):
    q, s = state(ex, a[1], st)
    t = in_region(ex, st, q, s, 'enable', plain(ex, (a[0], a[2]), info, st))
    return from_term(t, info.ty)


# -- Value -------------------------------------------------------------------------
@M.pattern(r'halo2_proofs::circuit::(?:value::)?Value::<V>::(map|as_ref|zip)')
def _(ex, st, a, info, m):
    x = val(ex, a[0], st)
    if m.group(1) == 'as_ref':
        return known(info.ty, RefV(x))
    if m.group(1) == 'zip':
        return known(info.ty, Tup([x, val(ex, a[1], st)]))
    return [(s, known(info.ty, y)) for s, y in ex.call_value(a[1], [x], st, val_type(info.ty))]


@M.pattern(r'<halo2_proofs::circuit::(?:value::)?Value<(&?)V> as std::ops::(Add|Sub|Mul)(?:<halo2_proofs::circuit::(?:value::)?Value<&?V>>)?>::(add|sub|mul)')
def _(ex, st, a, info, m):
    x, y = val(ex, a[0], st), val(ex, a[1], st)
    it = val_type(info.ty)
    if TY[it]['s'] == M.FP:
        f = dict(add=lambda p, q: tm.poly_add('Fp', p, q), sub=lambda p, q: tm.poly_add('Fp', p, tm.poly_neg('Fp', q)), mul=lambda p, q: tm.poly_mul('Fp', p, q))[m.group(3)]
        return known(info.ty, M.fval(f(to_term(ex.full_deref(x, st)), to_term(ex.full_deref(y, st))), 'Fp'))
    n = ex.byname.get('<value::NoteValue as std::ops::Sub>::sub')
    xt = tyof(x, ex, st)
    if m.group(3) == 'sub' and xt is not None and TY[xt]['s'] == 'value::NoteValue' and n is not None:
        return [(s, known(info.ty, r)) for s, r in call_local(ex, st, '<value::NoteValue as std::ops::Sub>::sub', [ex.full_deref(x, st), ex.full_deref(y, st)], it)]
    return NotImplemented


def tyof(x, ex, st):
    x = ex.full_deref(x, st)
    return x.ty if isinstance(x, (Opq, Adt)) else None


def call_local(ex, st, name, args, rty):
    from exec import Info
    fn = ex.byname[name]
    info = Info()
    info.callee = dict(p=name, i=fn['id'], a=[])
    info.frame, info.bb = None, None
    info.ty = rty
    info.argtys = list(fn['l'][1:1 + len(args)])
    return ex.call(info.callee, list(args), st, info)


@M.model('circuit::gadget::AddInstruction::add')
def _(ex, st, a, info):
    if info.name != 'circuit::gadget::AddInstruction::add':
        return NotImplemented
    return call(ex, st, a, info, 'AddInstruction::add')
