"""Contracts on src/tree.rs."""
from speclib import *
from s_spec import *
from s_keys import *
from s_note import ECM, base, bits_of_bytes

ANCHOR, MHO, PATH = 'tree::Anchor', 'tree::MerkleHashOrchard', 'tree::MerklePath'
DEPTH = 32


def merkle_crh(l, left, right):
    """MerkleCRH^Orchard at level index l (8 bits), undefined hashes replaced by zero."""
    dom = uf('sinsemilla', (M.str_term('z.cash:Orchard-MerkleCRH'),), 'U', 'HashDomain')
    lb = Seq([('lit', [eq(extract(i, i, l), bvc(1, 1)) if i < 8 else FALSE for i in range(10)])], ty('bool'))
    bits = to_term(M.cat(lb, fbits(None, left), fbits(None, right)))
    p = uf('sins_hash', (dom, bits))
    x = ite(M.geq(p, M.g_zero()), tm.poly_const('Fp', 0), M.px(p))
    return ite(M.sins_defined(dom, bits), x, tm.poly_const('Fp', 0))


def mcrh(l, left, right):
    """The symbol defined by merkle_crh."""
    return uf('mcrh', (l, left, right), 'U')


def node(v):
    return to_term(field(v, '0'))


def mh(x):
    return A(MHO, M.fval(x, 'Fp'))


def merkle_root(path, leaf):
    pos, auth = field(path, 'position'), as_seq(field(path, 'auth_path'), ty(MHO))
    x = leaf
    for l in range(DEPTH):
        sib = node(seq_at(auth, bvc(64, l)))
        right = eq(extract(l, l, pos), bvc(1, 1))
        x = ite(right, mcrh(bvc(8, l), sib, x), mcrh(bvc(8, l), x, sib))
    return x


def empty_roots():
    x = tm.poly_const('Fp', 2)
    out = [x]
    for l in range(DEPTH):
        x = mcrh(bvc(8, l), x, x)
        out.append(x)
    return out


def lvl(c, l):
    return c.t(c.f(l, '0'))


@contract('<tree::MerkleHashOrchard as incrementalmerkletree::Hashable>::combine', 'P09', opaque=lambda c, l, a, b: mh(mcrh(lvl(c, l), node(c.d(a)), node(c.d(b)))))
def _(c, l, a, b):
    return mh(merkle_crh(lvl(c, l), node(c.d(a)), node(c.d(b))))


@contract('<tree::MerkleHashOrchard as incrementalmerkletree::Hashable>::empty_leaf', 'P09')
def _(c):
    return mh(tm.poly_const('Fp', 2))


@contract('<tree::EMPTY_ROOTS as std::ops::Deref>::deref', 'P09')
def _(c, s):
    return RefV(Seq([('lit', [mh(x) for x in empty_roots()])], ty(MHO)))


@contract('<tree::MerkleHashOrchard as incrementalmerkletree::Hashable>::empty_root', 'P09', panics=lambda c, l: ult(bvc(8, 32), lvl(c, l)),
          note='panics above level 32, where the protocol defines no root')
def _(c, l):
    n = lvl(c, l)
    r = empty_roots()
    x = r[DEPTH]
    for i in reversed(range(DEPTH)):
        x = ite(eq(n, bvc(8, i)), r[i], x)
    return mh(x)


@contract('tree::Anchor::empty_tree', 'P09')
def _(c):
    return A(ANCHOR, M.fval(empty_roots()[DEPTH], 'Fp'))


@contract('tree::MerklePath::root', 'P09')
def _(c, s, cmx):
    return A(ANCHOR, M.fval(merkle_root(c.d(s), c.t(c.f(cmx, '0'))), 'Fp'))


@contract('tree::MerklePath::from_parts', 'P09')
def _(c, pos, auth):
    return c.S(c.t(pos), c.d(auth))


@contract('tree::MerklePath::new', 'P09')
def _(c, pos, auth):
    return c.S(c.t(pos), seq_map(as_seq(c.d(auth), ty('pasta_curves::Fp')), lambda x: A(MHO, x)))


@contract('tree::MerklePath::position', 'P09 P05')
def _(c, s):
    return c.f(s, 'position')


@contract('tree::MerklePath::auth_path', 'P09 P05')
def _(c, s):
    return c.f(s, 'auth_path')


@invariant('incrementalmerkletree::MerklePath')
def _(v):
    """Construction checks that there is one element for each level."""
    return [eq(seq_len(as_seq(field(v, 'path_elems'), ty(MHO))), bvc(64, 32))]


@contract('<tree::MerklePath as std::convert::From<incrementalmerkletree::MerklePath<tree::MerkleHashOrchard, 32>>>::from', 'P09')
def _(c, p):
    v = c.d(p)
    pe = as_seq(field(v, 'path_elems'), ty(MHO))
    return c.S(extract(31, 0, to_term(field(field(v, 'position'), '0'))), Seq([('lit', [seq_at(pe, bvc(64, i)) for i in range(32)])], ty(MHO)))


@contract('tree::MerkleHashOrchard::from_cmx', 'P09')
def _(c, x):
    return mh(c.t(c.f(x, '0')))


for _t in (ANCHOR, MHO):
    def _reg(t):
        @contract(t + '::inner', 'P09 P06 P05')
        def _(c, s):
            return c.f(s, '0')

        @contract(t + '::to_bytes', 'P09 P12')
        def _(c, s):
            return frepr(c.t(c.f(s, '0')), 'Fp')

        @contract(t + '::from_bytes', 'P09 P12')
        def _(c, b):
            x, ok = M.f_from_repr(c.t(b), 'Fp')
            return ctopt(c, A(t, M.fval(x, 'Fp')), ok)

        @contract('<%s as std::cmp::PartialEq>::eq' % t, 'P09')
        def _(c, a, b):
            return M.feq('Fp', c.t(c.f(a, '0')), c.t(c.f(b, '0')))
    _reg(_t)


@contract('<tree::Anchor as std::convert::From<pasta_curves::Fp>>::from', 'P09')
def _(c, x):
    return c.S(c.d(x))


@contract('<tree::Anchor as std::convert::From<tree::MerkleHashOrchard>>::from', 'P09')
def _(c, x):
    return c.S(c.f(x, '0'))


@contract('<tree::MerkleHashOrchard as subtle::ConditionallySelectable>::conditional_select', 'P09')
def _(c, a, b, ch):
    k = c.d(ch)
    k = k.fs[0] if isinstance(k, Adt) else to_term(k)
    k = eq(k, bvc(8, 1)) if k.sort == 8 else k
    return mh(ite(k, c.t(c.f(b, '0')), c.t(c.f(a, '0'))))


def rand_path(c, rng):
    return from_term(uf('rand_path', (M.rng_draw(c.ex, c.st, rng, 'path'),)), ty(PATH))


@contract('tree::MerklePath::dummy', 'P09 P20', kind='post', havoc=rand_path)
def _(c, args, ret):
    return [('a path of 32 nodes', TRUE)]
