"""Contracts on the remaining small functions: reading and writing keys, serde, equality, defaults, views of the builder's requests."""
from speclib import *
from s_keys import *
from s_keys import fvk_from
from s_note import *
from s_bundle import mkadt
from s_zip32 import XSK, KIDX
from s_builder import discr_of, is_some, some_of


# -- io ---------------------------------------------------------------------------
@contract('keys::FullViewingKey::read', 'P12', kind='post', skip_apply=True)
def _(c, args, ret):
    """The 96 bytes the reader yields, parsed; the reader's own error; an error for an invalid key."""
    r = c.deep(ret)
    n = bvc(64, 96)
    w = to_term(c.d(args[0]))
    rd = uf('read_bytes', (w, n))
    vals.KNOWN_LEN[rd] = 96
    okr = uf('read_ok', (w, n), 'B')
    v, ok = fvk_from(as_seq(Opq(rd, ty('[u8; 96]'))))
    d = discr_of(r)
    out = [('succeeds exactly if the reader does and the key is valid', eq(d, bvc(64, 0)), and_(okr, ok))]
    if isinstance(r, Adt) and r.var == 0:
        out.append(('the key parsed', r.fs[0], v))
    elif isinstance(r, Adt) and isinstance(r.fs[0], Opq) and r.fs[0].t.op == 'read_err':
        out.append(("the reader's error", not_(okr)))
    return out


@contract('keys::FullViewingKey::write', 'P12', skip_apply=True)
def _(c, s, w):
    ak, nk, rivk = fvk_parts(c.d(s))
    data = M.cat(grepr(ak), frepr(nk, 'Fp'), frepr(rivk, 'Fq'))
    return Opq(uf('write_result', (to_term(c.d(w)), to_term(as_seq(data)))), c.rty)


# -- serde -------------------------------------------------------------------------
MH = 'tree::MerkleHashOrchard'


@contract('<%s as serde::Serialize>::serialize' % MH, 'P12', skip_apply=True)
def _(c, s, w):
    return Opq(uf('ser_bytes', (to_term(as_seq(frepr(c.t(c.f(s, '0')), 'Fp'))), to_term(c.d(w)))), c.rty)


@contract("<%s as serde::Deserialize<'de>>::deserialize" % MH, 'P12', kind='post', skip_apply=True)
def _(c, args, ret):
    r = c.deep(ret)
    w = to_term(c.d(args[0]))
    got, raw = M.de_parts(w)
    x, canon = M.f_from_repr(raw, 'Fp')
    out = [('succeeds exactly if the deserializer yields a canonical encoding', eq(discr_of(r), bvc(64, 0)), and_(got, canon))]
    if isinstance(r, Adt) and r.var == 0:
        out.append(('the node encoded', field(r.fs[0], '0'), M.fval(x, 'Fp')))
    elif isinstance(r, Adt) and isinstance(r.fs[0], Opq) and r.fs[0].t.op == 'de_err':
        out.append(("the deserializer's error", not_(got)))
    return out


# -- equality ----------------------------------------------------------------------
def eq_of(name, props, parts):
    @contract('<%s as std::cmp::PartialEq>::eq' % name, props)
    def _(c, a, b):
        return parts(c, c.d(a), c.d(b))


def by_field(field_name, f):
    return lambda c, a, b: M.feq(f, to_term(field(a, field_name)), to_term(field(b, field_name)))


eq_of('keys::NullifierDerivingKey', 'P10', by_field('0', 'Fp'))
eq_of('keys::CommitIvkRandomness', 'P10', by_field('0', 'Fq'))
eq_of('spec::NonZeroPallasScalar', 'P10', by_field('0', 'Fq'))


def fvk_eq(c, a, b):
    x, y = fvk_parts(a), fvk_parts(b)
    return and_(M.geq(x[0], y[0]), M.feq('Fp', x[1], y[1]), M.feq('Fq', x[2], y[2]))


eq_of('keys::FullViewingKey', 'P10', fvk_eq)


def bytes_eq(a, b):
    return and_(*[eq(to_term(x), to_term(y)) for x, y in zip(as_seq(a).concrete(), as_seq(b).concrete())])


@contract('<keys::SpendingKey as subtle::ConstantTimeEq>::ct_eq', 'P22')
def _(c, a, b):
    return bytes_eq(c.f(a, '0'), c.f(b, '0'))


def kidx_eq(a, b):
    x, y = field(a, '0'), field(b, '0')
    px_, py_ = to_term(field(x, 'is_some')), to_term(field(y, 'is_some'))
    return or_(and_(px_, py_, eq(to_term(field(field(x, 'value'), '0')), to_term(field(field(y, 'value'), '0')))), and_(not_(px_), not_(py_)))


@contract('<%s as subtle::ConstantTimeEq>::ct_eq' % KIDX, 'P22')
def _(c, a, b):
    return kidx_eq(c.d(a), c.d(b))


@contract('<%s as std::cmp::PartialEq>::eq' % KIDX, 'P22')
def _(c, a, b):
    return kidx_eq(c.d(a), c.d(b))


@contract('<%s as subtle::ConstantTimeEq>::ct_eq' % XSK, 'P22')
def _(c, a, b):
    a, b = c.d(a), c.d(b)
    return and_(eq(to_term(field(a, 'depth')), to_term(field(b, 'depth'))),
                bytes_eq(field(field(a, 'parent_fvk_tag'), '0'), field(field(b, 'parent_fvk_tag'), '0')),
                kidx_eq(field(a, 'child_index'), field(b, 'child_index')),
                bytes_eq(field(field(a, 'chain_code'), '0'), field(field(b, 'chain_code'), '0')),
                bytes_eq(field(field(a, 'sk'), '0'), field(field(b, 'sk'), '0')))


@contract('<keys::EphemeralSecretKey as subtle::ConstantTimeEq>::ct_eq', 'P14')
def _(c, a, b):
    return M.feq('Fq', to_term(field(c.f(a, '0'), '0')), to_term(field(c.f(b, '0'), '0')))


# -- raw conversions ------------------------------------------------------------------
@contract('<keys::OutgoingViewingKey as std::convert::From<[u8; 32]>>::from', 'P12')
def _(c, b):
    return c.S(c.d(b))


@contract('keys::DiversifierKey::from_bytes', 'P12')
def _(c, b):
    return c.S(c.d(b))


# -- defaults and selection of values that must not be zero ------------------------------
for _t in ('spec::NonZeroPallasScalar', 'spec::NonZeroPallasBase', 'spec::NonIdentityPallasPoint', 'keys::DiversifiedTransmissionKey', 'tree::MerkleHashOrchard'):
    def _reg(t):
        if t == 'tree::MerkleHashOrchard':
            return

        @contract('<%s as subtle::ConditionallySelectable>::conditional_select' % t, 'P10')
        def _(c, a, b, choice):
            return vite(c.t(choice), c.d(b), c.d(a))
    _reg(_t)


@contract('<spec::NonZeroPallasScalar as std::default::Default>::default', 'P10')
def _(c):
    return c.S(fq(1))


@contract('<spec::NonZeroPallasBase as std::default::Default>::default', 'P10')
def _(c):
    return c.S(fp(1))


# -- the builder's requests as seen from outside ------------------------------------------
@contract('<builder::SpendInfo as builder::InputView<()>>::value', 'P20', kind='post', skip_apply=True)
def _(c, args, ret):
    return into_u64(c, ret, field(field(c.f(args[0], 'note'), 'value'), '0'))


@contract('<builder::OutputInfo as builder::OutputView>::value', 'P20', kind='post', skip_apply=True)
def _(c, args, ret):
    return into_u64(c, ret, field(c.f(args[0], 'value'), '0'))


def into_u64(c, ret, n):
    t = to_term(c.deep(ret))
    if not (t.op.startswith('ext') and len(t.args) == 1):
        return [("converted with the caller's conversion", NOSHAPE)]
    return [('the value of the note', t.args[0], to_term(n))]
