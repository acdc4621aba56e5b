"""Contracts assumed on std and on orchard's dependencies.

Every function here is an *assumed* contract: it says what a call into code outside /repo does.
The evidence of each check lists the ones its proofs used.
"""
import re
from values import *
import values as vals
import term as tm
from exec import (SymLoop, NeedDrop, fact, arith_overflow, int_cast, mk_first, mk_all, seq_ty, gsum, fsum)

EXACT = {}
PAT = []
CONST_ADT = {}


def model(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PAT.append((re.compile('(?:' + rx + r')\Z'), f))
        return f
    return d


_find_cache = {}


def find(name, p):
    k = (name, p)
    if k in _find_cache:
        return _find_cache[k]
    cands = [f for f in (EXACT.get(name), EXACT.get(p)) if f is not None]
    for rx, f in PAT:
        m = rx.match(name) or rx.match(p)
        if m:
            cands.append(lambda ex, st, a, info, f=f, m=m: f(ex, st, a, info, m))
    r = None
    if len(cands) == 1:
        r = cands[0]
    elif cands:
        def r(ex, st, a, info):
            for c in cands:
                x = c(ex, st, a, info)
                if x is not NotImplemented:
                    return x
            return NotImplemented
    _find_cache[k] = r
    return r


# ------------------------------------------------------------------ helpers
def D(ex, v, st):
    return ex.full_deref(v, st)


def tt(ex, v, st):
    """Term of a value, pointers followed."""
    v = D(ex, v, st)
    if isinstance(v, It):
        v = ex.purify(v, st)
    return to_term(ex.deep(v, st))


FP, FQ, EP, EPA = 'pasta_curves::Fp', 'pasta_curves::Fq', 'pasta_curves::Ep', 'pasta_curves::EpAffine'
FTY = {'Fp': FP, 'Fq': FQ}


def F(name):
    return name.split('::')[-1]


def fval(t, f):
    return Opq(t, ty(FTY[f]))


def gval(t, tyname=EP):
    return Opq(t, ty(tyname))


def argty_name(info, i):
    t = strip_ref(info.argtys[i]) if info.argtys[i] is not None else None
    return TY[t]['s'] if t is not None else '?'


def opt(tyid, some, val):
    """Option value: tyid the Option type, some a bool term."""
    return vite(some, Adt(tyid, 1, [val]), Adt(tyid, 0, []))


def opt_inner(tyid):
    return TY[tyid]['a'][0]


def ordering(tyid, lt, e):
    return vite(lt, Adt(tyid, 0, ()), vite(e, Adt(tyid, 1, ()), Adt(tyid, 2, ())))


def root_ref(ex, v, st):
    """The innermost location a chain of references leads to."""
    v = ex.resolve(v, st)
    if not isinstance(v, Ref):
        return None
    while True:
        x = ex.resolve(ex.read(st, v.obj, v.proj), st)
        if isinstance(x, Ref):
            v = x
        else:
            return v


def rng_draw(ex, st, rng, what, args=()):
    """(state term before, advance): the generator's state is advanced by one draw of kind `what`."""
    r = root_ref(ex, rng, st)
    v = D(ex, rng, st)
    t = to_term(ex.deep(v, st))
    if r is not None:
        ex.write(st, r.obj, r.proj, Opq(uf('rng_next', (t,) + tuple(args), 'U', what), v.ty if isinstance(v, Opq) else None))
    return t


def bytes_le(t):
    return Seq([('lit', [extract(8 * i + 7, 8 * i, t) for i in range(t.sort // 8)])], ty('u8'))


def from_le(seq):
    bs = as_seq(seq).concrete()
    r = None
    for b in bs:
        r = b if r is None else concat(b, r)
    return r


def seqv(ex, v, st):
    v = D(ex, v, st)
    if isinstance(v, It):
        return ex.purify(v, st)
    e = None
    return as_seq(v, e)


# ------------------------------------------------------------------ fields
def _u2f(f, t):
    t = zext(128, t) if t.sort < 128 else t
    if is_c(t):
        return poly_const(f, t.data)
    return uf('u2f', (t,), 'U', f)


tm._REBUILD['u2f'] = lambda t, a: _u2f(t.data, a[0])


def feq(f, a, b):
    if a.op == 'ite':
        return ite(a.args[0], feq(f, a.args[1], b), feq(f, a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], feq(f, a, b.args[1]), feq(f, a, b.args[2]))
    d = poly_add(f, a, poly_neg(f, b))
    c = poly_is_const(f, d)
    if c is not None:
        return boolc(c == 0)
    parts = list(poly_parts(f, d).values())
    if len(parts) == 1 and parts[0][1] and (len(parts[0][1]) > 1 or parts[0][0] != 1 or d is not a):
        return or_(*[feq(f, x, poly_const(f, 0)) for x in parts[0][1]])
    # c0 + c1 * u2f(x) = 0 decides x
    if len(parts) <= 2:
        ats = [(c, at) for c, at in parts if at]
        cst = [c for c, at in parts if not at]
        if len(ats) == 1 and len(ats[0][1]) == 1 and ats[0][1][0].op == 'u2f':
            m = MODULUS[f]
            v = (-(cst[0] if cst else 0)) * pow(ats[0][0], -1, m) % m
            x = ats[0][1][0].args[0]
            return eq(x, bvc(128, v)) if v >> 128 == 0 else FALSE
    if len(parts) == 2 and all(len(at) == 1 and at[0].op == 'u2f' for _, at in parts) and (parts[0][0] + parts[1][0]) % MODULUS[f] == 0:
        return eq(parts[0][1][0].args[0], parts[1][1][0].args[0])
    if tm.poly_is_const(f, a) is not None:
        a, b = b, a
    if f == 'Fq' and a.op == 'p2q':
        # the embedding of the base field into the scalar field is injective
        if b.op == 'p2q':
            return feq('Fp', a.args[0], b.args[0])
        k = tm.poly_is_const(f, b)
        if k is not None:
            return feq('Fp', a.args[0], poly_const('Fp', k)) if k < MODULUS['Fp'] else FALSE
    return eq(a, b)


# Hashes to the curve that are known not to be the identity (checked by computation in the harness).
NONIDENTITY = [('z.cash:Orchard-gd', b''), ('z.cash:Orchard-cv', b'v'), ('z.cash:Orchard-cv', b'r'), ('z.cash:Orchard', b'G'), ('z.cash:Orchard', b'K')]
_nonid = []


def nonidentity(t):
    if not _nonid:
        _nonid.append(frozenset(uf('h2c', (str_term(p), to_term(bytes_seq(m)))) for p, m in NONIDENTITY))
    return t in _nonid[0]


def geq(a, b):
    if b is g_zero() and a.op == 'h2c' and nonidentity(a):
        return FALSE
    if a.op == 'ite':
        return ite(a.args[0], geq(a.args[1], b), geq(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], geq(a, b.args[1]), geq(a, b.args[2]))
    d = g_add(a, g_neg(b))
    if d is g_zero():
        return TRUE
    if d.op == 'lin' and len(d.args) == 2:
        # c * P = 0  iff  c = 0 or P = 0 (prime order)
        return or_(feq('Fq', d.args[0], poly_const('Fq', 0)), geq(d.args[1], g_zero()))
    return eq(a, b)


for _f in ('Fp', 'Fq'):
    def _reg(f):
        n = FTY[f]
        P = re.escape(n)

        @pattern(r'<(?:&(?:\'\w+ )?)?%s as std::ops::(Add|Sub|Mul)(?:<(?:&(?:\'\w+ )?)?%s>)?>::\w+' % (P, P))
        def _(ex, st, a, info, m):
            x, y = tt(ex, a[0], st), tt(ex, a[1], st)
            if m.group(1) == 'Add':
                return fval(poly_add(f, x, y), f)
            if m.group(1) == 'Sub':
                return fval(poly_add(f, x, poly_neg(f, y)), f)
            return fval(poly_mul(f, x, y), f)

        @pattern(r'<%s as std::ops::(Add|Sub|Mul)Assign(?:<.*>)?>::\w+' % P)
        def _(ex, st, a, info, m):
            x, y = tt(ex, a[0], st), tt(ex, a[1], st)
            r = {'Add': lambda: poly_add(f, x, y), 'Sub': lambda: poly_add(f, x, poly_neg(f, y)), 'Mul': lambda: poly_mul(f, x, y)}[m.group(1)]()
            q = root_ref(ex, a[0], st)
            ex.write(st, q.obj, q.proj, fval(r, f))
            return UNIT

        @pattern(r'<(?:&(?:\'\w+ )?)?%s as std::ops::Neg>::neg' % P)
        def _(ex, st, a, info, m):
            return fval(poly_neg(f, tt(ex, a[0], st)), f)

        @pattern(r'%s::(zero|one|from_raw|square|double|neg|add|sub|mul)|<%s as ff::Field>::(square|double|invert|sqrt|random|pow_vartime|cube)' % (P, P))
        def _(ex, st, a, info, m):
            g = m.group(1) or m.group(2)
            if g == 'zero':
                return fval(poly_const(f, 0), f)
            if g == 'one':
                return fval(poly_const(f, 1), f)
            if g == 'random':
                return fval(uf('random', (rng_draw(ex, st, a[0], f),), 'U', f), f)
            x = tt(ex, a[0], st)
            if g == 'square':
                return fval(poly_mul(f, x, x), f)
            if g == 'double':
                return fval(poly_add(f, x, x), f)
            if g == 'cube':
                return fval(poly_mul(f, x, poly_mul(f, x, x)), f)
            if g == 'neg':
                return fval(poly_neg(f, x), f)
            if g in ('add', 'sub', 'mul'):
                y = tt(ex, a[1], st)
                return fval({'add': lambda: poly_add(f, x, y), 'sub': lambda: poly_add(f, x, poly_neg(f, y)), 'mul': lambda: poly_mul(f, x, y)}[g](), f)
            return NotImplemented

        @pattern(r'<%s as std::convert::From<(u64|u128|bool)>>::from|<%s as ff::PrimeField>::from_u128' % (P, P))
        def _(ex, st, a, info, m):
            x = a[0]
            if x.sort == 'B':
                return fval(ite(x, poly_const(f, 1), poly_const(f, 0)), f)
            return fval(_u2f(f, x), f)

        @pattern(r'<%s as (?:std::cmp::PartialEq|subtle::ConstantTimeEq)>::(eq|ne|ct_eq)' % P)
        def _(ex, st, a, info, m):
            r = feq(f, tt(ex, a[0], st), tt(ex, a[1], st))
            return not_(r) if m.group(1) == 'ne' else r

        @pattern(r'<%s as std::cmp::(?:Ord|PartialOrd)>::(cmp|partial_cmp|lt|le|gt|ge)' % P)
        def _(ex, st, a, info, m):
            x, y = tt(ex, a[0], st), tt(ex, a[1], st)
            e = feq(f, x, y)
            lt = and_(uf('flt', (x, y), 'B', f), not_(e))
            g = m.group(1)
            if g == 'cmp':
                return ordering(info.ty, lt, e)
            if g == 'partial_cmp':
                return Adt(info.ty, 1, [ordering(opt_inner(info.ty), lt, e)])
            return {'lt': lt, 'le': or_(lt, e), 'gt': not_(or_(lt, e)), 'ge': not_(lt)}[g]

        @pattern(r'<%s as ff::PrimeField>::to_repr|%s::to_repr|.*<impl std::convert::From<(?:&(?:\'\w+ )?)?%s> for \[u8; 32\]>::from' % (P, P, P))
        def _(ex, st, a, info, m):
            return f_repr(ex, st, tt(ex, a[0], st), f)

        @pattern(r'<%s as ff::PrimeField>::(from_repr|from_repr_vartime)|%s::from_repr' % (P, P))
        def _(ex, st, a, info, m):
            b = tt(ex, a[0], st)
            r = f_from_repr(b, f)
            if m.group(1) == 'from_repr_vartime':
                return opt(info.ty, r[1], fval(r[0], f))
            return Adt(info.ty, 0, [fval(r[0], f), r[1]])

        @pattern(r'<%s as ff::FromUniformBytes<64>>::from_uniform_bytes' % P)
        def _(ex, st, a, info, m):
            return fval(uf('wide', (tt(ex, a[0], st),), 'U', f), f)

        @pattern(r'<%s as ff::PrimeFieldBits>::to_le_bits' % P)
        def _(ex, st, a, info, m):
            return f_bits(ex, st, tt(ex, a[0], st), f)

        @pattern(r'<%s as subtle::ConditionallySelectable>::conditional_select' % P)
        def _(ex, st, a, info, m):
            c = D(ex, a[2], st)
            return fval(ite(c, tt(ex, a[1], st), tt(ex, a[0], st)), f)

        @pattern(r'<%s as (?:ff::PrimeField)>::is_odd' % P)
        def _(ex, st, a, info, m):
            return f_bits(ex, st, tt(ex, a[0], st), f).concrete()[0]

        @pattern(r'<%s as std::default::Default>::default' % P)
        def _(ex, st, a, info, m):
            return fval(poly_const(f, 0), f)

        @pattern(r'<%s as std::clone::Clone>::clone' % P)
        def _(ex, st, a, info, m):
            return D(ex, a[0], st)

        def c_adt(c):
            # four little-endian 64-bit limbs in Montgomery form
            limbs = []

            def walk(x):
                if x['c'] == 'int':
                    limbs.append(int(x['v']))
                elif isinstance(x.get('v'), list):
                    for y in x['v']:
                        walk(y)
            walk(c)
            v = sum(l << (64 * i) for i, l in enumerate(limbs))
            m = MODULUS[f]
            return fval(poly_const(f, v * pow(1 << 256, -1, m) % m), f)
        CONST_ADT[n] = c_adt
    _reg(_f)


def f_repr(ex, st, x, f):
    c = poly_is_const(f, x)
    if c is not None:
        return bytes_seq(c.to_bytes(32, 'little'))
    if x.op == 'fromrepr' and x.data == f and ex is not None and ex.implied(st, f_canon(x.args[0], f)):
        return as_seq(Opq(x.args[0], ty('[u8; 32]')))
    if x.op == 'ite':
        return as_seq(vite(x.args[0], f_repr(ex, st, x.args[1], f), f_repr(ex, st, x.args[2], f)))
    if x.op == 'p2q':
        return f_repr(ex, st, x.args[0], 'Fp')
    t = uf('repr', (x,), 'U', f)
    vals.KNOWN_LEN[t] = 32
    if x.op == 'fromrepr' and x.data == f:
        b = as_seq(Opq(x.args[0], ty('[u8; 32]'))).concrete()
        fact(t, implies(f_canon(x.args[0], f), and_(*[eq(idx_term(t, i), to_term(b[i])) for i in range(32)])))
    return as_seq(Opq(t, ty('[u8; 32]')))


def f_canon(b, f):
    if b.op == 'repr':
        return TRUE if b.data == f or f == 'Fq' else uf('canon', (b,), 'B', f)
    if b.op == 'seq':
        bs = [a for a in b.args]
        if all(is_c(x) for x in bs) and len(bs) == 32:
            return boolc(sum(x.data << (8 * i) for i, x in enumerate(bs)) < MODULUS[f])
    if b.op == 'ite':
        return ite(b.args[0], f_canon(b.args[1], f), f_canon(b.args[2], f))
    return uf('canon', (b,), 'B', f)


def f_from_repr(b, f):
    """(value term, canonical)"""
    if b.op == 'repr' and b.data == f:
        return b.args[0], TRUE
    if b.op == 'repr' and b.data == 'Fp' and f == 'Fq':
        return uf('p2q', (b.args[0],), 'U'), TRUE
    if b.op == 'seq' and all(is_c(x) for x in b.args) and len(b.args) == 32:
        v = sum(x.data << (8 * i) for i, x in enumerate(b.args))
        return poly_const(f, v), boolc(v < MODULUS[f])
    if b.op == 'ite':
        x, y = f_from_repr(b.args[1], f), f_from_repr(b.args[2], f)
        return ite(b.args[0], x[0], y[0]), ite(b.args[0], x[1], y[1])
    return uf('fromrepr', (b,), 'U', f), f_canon(b, f)


def byte_bits(b):
    return [eq(extract(j, j, b), bvc(1, 1)) for j in range(8)]


def f_bits(ex, st, x, f):
    bs = f_repr(ex, st, x, f).concrete()
    return Seq([('lit', [q for b in bs for q in byte_bits(b)])], ty('bool'))


@model('ff::Field::is_zero')
def _(ex, st, a, info):
    n = F(argty_name(info, 0))
    if n not in MODULUS:
        n = F(TY[info.targs()[0]]['s'])
    return feq(n, tt(ex, a[0], st), poly_const(n, 0))


@model('ff::Field::is_zero_vartime')
def _(ex, st, a, info):
    n = F(argty_name(info, 0))
    return feq(n, tt(ex, a[0], st), poly_const(n, 0))


# ------------------------------------------------------------------ curve
for _e in (EP, EPA):
    def _reg2(E):
        P = re.escape(E)

        @pattern(r'<(?:&(?:\'\w+ )?)?%s as std::ops::(Add|Sub|Mul)(?:<(?:&(?:\'\w+ )?)?([\w:]+)>)?>::\w+' % P)
        def _(ex, st, a, info, m):
            x, y = tt(ex, a[0], st), tt(ex, a[1], st)
            if m.group(1) == 'Add':
                return gval(g_add(x, y))
            if m.group(1) == 'Sub':
                return gval(g_add(x, g_neg(y)))
            return gval(g_mul(y, x))

        @pattern(r'<%s as std::ops::(Add|Sub|Mul)Assign(?:<.*>)?>::\w+' % P)
        def _(ex, st, a, info, m):
            x, y = tt(ex, a[0], st), tt(ex, a[1], st)
            r = {'Add': lambda: g_add(x, y), 'Sub': lambda: g_add(x, g_neg(y)), 'Mul': lambda: g_mul(y, x)}[m.group(1)]()
            q = root_ref(ex, a[0], st)
            ex.write(st, q.obj, q.proj, gval(r))
            return UNIT

        @pattern(r'<(?:&(?:\'\w+ )?)?%s as std::ops::Neg>::neg' % P)
        def _(ex, st, a, info, m):
            return gval(g_neg(tt(ex, a[0], st)), E)

        @pattern(r'<%s as (?:std::cmp::PartialEq|subtle::ConstantTimeEq)>::(eq|ne|ct_eq)' % P)
        def _(ex, st, a, info, m):
            r = geq(tt(ex, a[0], st), tt(ex, a[1], st))
            return not_(r) if m.group(1) == 'ne' else r

        @pattern(r'<%s as (?:group::Group|group::prime::PrimeCurveAffine|group::Curve|pasta_curves::arithmetic::\w+)>::(identity|generator|is_identity|to_affine|to_curve|random|double|batch_normalize|hash_to_curve)' % P)
        def _(ex, st, a, info, m):
            g = m.group(1)
            if g == 'identity':
                return gval(g_zero(), E)
            if g == 'generator':
                return gval(uf('pallas_generator'), E)
            if g == 'random':
                t = uf('random', (rng_draw(ex, st, a[0], 'Ep'),), 'U', 'Ep')
                return gval(t, E)
            if g == 'hash_to_curve':
                return Opq(uf('hash_to_curve', (tt(ex, a[0], st),)), info.ty)
            if g == 'batch_normalize':
                src = seqv(ex, a[0], st)
                q = root_ref(ex, a[1], st)
                dst = as_seq(ex.read(st, q.obj, q.proj))
                c = eq(seq_len(src), seq_len(dst))
                if not ex.implied(st, c):
                    ex.panic(st.copy().add(not_(c)), 'batch_normalize length', info.name)
                    st.add(c)
                out = seq_map(src, lambda v: gval(to_term(ex.deep(D(ex, v, st), st)), EPA))
                out.ety = ty(EPA)
                ex.write(st, q.obj, q.proj, out)
                return UNIT
            x = tt(ex, a[0], st)
            if g == 'is_identity':
                return geq(x, g_zero())
            if g == 'to_affine':
                return gval(x, EPA)
            if g == 'to_curve':
                return gval(x, EP)
            if g == 'double':
                return gval(g_add(x, x), E)

        @pattern(r'<%s as group::GroupEncoding>::(to_bytes|from_bytes|from_bytes_unchecked)' % P)
        def _(ex, st, a, info, m):
            if m.group(1) == 'to_bytes':
                return g_repr(ex, st, tt(ex, a[0], st))
            b = tt(ex, a[0], st)
            p, ok = g_from_repr(b)
            return Adt(info.ty, 0, [gval(p, E), ok])

        @pattern(r'<%s as subtle::ConditionallySelectable>::conditional_select' % P)
        def _(ex, st, a, info, m):
            c = D(ex, a[2], st)
            return gval(ite(c, tt(ex, a[1], st), tt(ex, a[0], st)), E)

        @pattern(r'<%s as std::clone::Clone>::clone' % P)
        def _(ex, st, a, info, m):
            return D(ex, a[0], st)

        @pattern(r'<%s as std::default::Default>::default' % P)
        def _(ex, st, a, info, m):
            return gval(g_zero(), E)

        @pattern(r'<%s as std::convert::From<[^>]*>>::from' % P)
        def _(ex, st, a, info, m):
            return gval(tt(ex, a[0], st), E)

        @pattern(r'<%s as pasta_curves::arithmetic::CurveAffine>::coordinates' % P)
        def _(ex, st, a, info, m):
            x = tt(ex, a[0], st)
            it = TY[info.ty]['a'][0]
            return Adt(info.ty, 0, [Opq(uf('coords', (x,)), it), not_(geq(x, g_zero()))])
    _reg2(_e)


def g_repr(ex, st, x):
    if x is g_zero():
        return bytes_seq(bytes(32))
    if x.op == 'frompt' and ex is not None and ex.implied(st, g_canon(x.args[0])):
        return as_seq(Opq(x.args[0], ty('[u8; 32]')))
    if x.op == 'ite':
        return as_seq(vite(x.args[0], g_repr(ex, st, x.args[1]), g_repr(ex, st, x.args[2])))
    if x.op == 'lin' and len(x.args) == 2 and x.args[0].op == 'ite':
        c, p, q = x.args[0].args
        return g_repr(ex, st, ite(c, g_mul(p, x.args[1]), g_mul(q, x.args[1])))
    t = ptrepr(x)
    n = ptrepr(g_neg(x))
    z = geq(x, g_zero())
    top = lambda r: extract(7, 7, idx_term(r, 31))
    # the two points with one x-coordinate have opposite sign bits; only the identity encodes to zeroes
    f = or_(z, eq(top(t), bvnot1(top(n))))
    fact(t, f)
    fact(n, f)
    fact(t, eq(z, mk_zero32(t)))
    return as_seq(Opq(t, ty('[u8; 32]')))


def ptrepr(x):
    t = uf('ptrepr', (x,), 'U')
    vals.KNOWN_LEN[t] = 32
    return t


def idx_term(t, i):
    return smart('idx', (t, bvc(64, i)), 8)


def conc_len(t):
    if t in vals.KNOWN_LEN:
        return vals.KNOWN_LEN[t]
    c = term_to_seq(t, None).concrete() if t.op == 'seq' else None
    return None if c is None else len(c)


def bvnot1(b):
    return bvc(1, 1) if is_c(b) and b.data == 0 else bvc(1, 0) if is_c(b) else tm.bvsub(bvc(1, 1), b)


def mk_zero32(t):
    c = TRUE
    for i in range(32):
        c = and_(c, eq(idx_term(t, i), bvc(8, 0)))
    return c


def unzip(b):
    """A sequence chosen element by element on one condition, as a choice between two sequences."""
    if b.op != 'seq' or not b.args or any(k != 'lit' for k, _ in b.data) or b.args[0].op != 'ite':
        return b
    c = b.args[0].args[0]
    if not all(x.op == 'ite' and x.args[0] is c for x in b.args):
        return b
    return ite(c, *[unzip(to_term(Seq([('lit', tuple(from_term(x.args[k], ty('u8')) for x in b.args))]))) for k in (1, 2)])


def g_canon(b):
    b = unzip(b)
    if b.op == 'ptrepr':
        return TRUE
    if b.op == 'ite':
        return ite(b.args[0], g_canon(b.args[1]), g_canon(b.args[2]))
    if b.op == 'seq' and all(is_c(x) and x.data == 0 for x in b.args):
        return TRUE
    return uf('ptcanon', (b,), 'B')


def g_from_repr(b):
    b = unzip(b)
    if b.op == 'ptrepr':
        return b.args[0], TRUE
    if b.op == 'seq' and all(is_c(x) and x.data == 0 for x in b.args) and len(b.args) == 32:
        return g_zero(), TRUE
    if b.op == 'ite':
        x, y = g_from_repr(b.args[1]), g_from_repr(b.args[2])
        return ite(b.args[0], x[0], y[0]), ite(b.args[0], x[1], y[1])
    t = uf('frompt', (b,), 'U')
    c = g_canon(b)
    if c.op == 'ptcanon':
        s = as_seq(Opq(b, ty('[u8; 32]'))).concrete()
        r = ptrepr(t)
        f = TRUE
        for i in range(32):
            f = and_(f, eq(idx_term(r, i), s[i]))
        fact(t, implies(c, f))
        z = TRUE
        for i in range(32):
            z = and_(z, eq(s[i], bvc(8, 0)))
        fact(t, implies(c, eq(geq(t, g_zero()), z)))
    return t, c


def px(p):
    return uf('px', (p,))


def py(p):
    return uf('py', (p,))


@pattern(r'pasta_curves::arithmetic::Coordinates::<C>::([xyu])')
def _(ex, st, a, info, m):
    c = tt(ex, a[0], st)
    if c.op == 'coords':
        t = {'x': px, 'y': py}[m.group(1)](c.args[0])
    else:
        t = uf('coord_' + m.group(1), (c,))
    return RefV(Opq(t, ty(FP)))


@pattern(r'group::WnafBase::<.*>::new')
def _(ex, st, a, info, m):
    return Opq(uf('wnafb', (tt(ex, a[0], st),)), info.ty)


@pattern(r'group::WnafScalar::<.*>::new')
def _(ex, st, a, info, m):
    return Opq(uf('wnafs', (tt(ex, a[0], st),)), info.ty)


@pattern(r'<&(?:\'\w+ )?group::WnafBase<.*> as std::ops::Mul<.*>>::mul')
def _(ex, st, a, info, m):
    b, s = tt(ex, a[0], st), tt(ex, a[1], st)
    if b.op == 'ite' or s.op == 'ite':
        return NotImplemented
    b = b.args[0] if b.op == 'wnafb' else uf('unwnafb', (b,))
    s = s.args[0] if s.op == 'wnafs' else uf('unwnafs', (s,))
    return gval(g_mul(s, b))


def h2c_call(ex, st, f, args, rty):
    msg = tt(ex, args[0], st)
    return gval(uf('h2c', (f.t.args[0], msg)))


@pattern(r'<std::boxed::Box<F, A> as std::ops::Fn(?:Mut|Once)?<Args>>::call(?:_mut|_once)?')
def _(ex, st, a, info, m):
    tup = D(ex, a[1], st)
    n = tup.fs if isinstance(tup, Tup) else [tup]
    return ex.call_value(D(ex, a[0], st), list(n), st, info.ty)


# ------------------------------------------------------------------ subtle
def choice(ex, v, st):
    return D(ex, v, st)


@model('<subtle::Choice as std::ops::Not>::not')
def _(ex, st, a, info):
    return not_(choice(ex, a[0], st))


@pattern(r'<subtle::Choice as std::ops::Bit(And|Or|Xor)>::\w+')
def _(ex, st, a, info, m):
    x, y = choice(ex, a[0], st), choice(ex, a[1], st)
    return {'And': and_(x, y), 'Or': or_(x, y), 'Xor': not_(eq(x, y))}[m.group(1)]


@pattern(r'<subtle::Choice as std::ops::Bit(And|Or|Xor)Assign>::\w+')
def _(ex, st, a, info, m):
    x, y = choice(ex, a[0], st), choice(ex, a[1], st)
    q = root_ref(ex, a[0], st)
    ex.write(st, q.obj, q.proj, {'And': and_(x, y), 'Or': or_(x, y), 'Xor': not_(eq(x, y))}[m.group(1)])
    return UNIT


@model('subtle::<impl std::convert::From<subtle::Choice> for bool>::from')
def _(ex, st, a, info):
    return choice(ex, a[0], st)


@model('<subtle::Choice as std::convert::From<u8>>::from')
def _(ex, st, a, info):
    return eq(a[0], bvc(8, 1))


@model('subtle::Choice::unwrap_u8')
def _(ex, st, a, info):
    return bv_of_bool(choice(ex, a[0], st), 8)


@pattern(r'<(u8|u16|u32|u64|i64|i128|u128|usize|subtle::Choice) as subtle::ConstantTimeEq>::(ct_eq|ct_ne)')
def _(ex, st, a, info, m):
    r = eq(D(ex, a[0], st), D(ex, a[1], st))
    return not_(r) if m.group(2) == 'ct_ne' else r


@pattern(r'<(u8|u16|u32|u64|i64|i128|u128|usize|subtle::Choice) as subtle::ConditionallySelectable>::conditional_select')
def _(ex, st, a, info, m):
    return ite(D(ex, a[2], st), D(ex, a[1], st), D(ex, a[0], st))


def seq_eq(ex, st, x, y):
    """Equality of two sequences as a term."""
    cx, cy = x.concrete(), y.concrete()
    if cx is not None and cy is not None:
        if len(cx) != len(cy):
            return FALSE
        if all(isinstance(p, T) for p in cx + cy):
            tx, ty_ = to_term(x), to_term(y)
            if tx is ty_:
                return TRUE
            if tx.op == ty_.op == 'ptrepr':
                return geq(tx.args[0], ty_.args[0])
            if tx.op == ty_.op == 'repr' and tx.data == ty_.data:
                return feq(tx.data, tx.args[0], ty_.args[0])
            return and_(*[eq(p, q) for p, q in zip(cx, cy)])
    return eq(to_term(ex.deep(x, st)), to_term(ex.deep(y, st)))


@model('<[T] as subtle::ConstantTimeEq>::ct_eq')
def _(ex, st, a, info):
    return seq_eq(ex, st, seqv(ex, a[0], st), seqv(ex, a[1], st))


@pattern(r'(?:std::array::equality::|core::slice::cmp::|std::vec::partial_eq::)?<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)')
def _(ex, st, a, info, m):
    x, y = D(ex, a[0], st), D(ex, a[1], st)
    try:
        x, y = as_seq(x), as_seq(y)
    except Unsupported:
        return NotImplemented
    r = seq_eq(ex, st, x, y)
    return not_(r) if m.group(1) == 'ne' else r


@model('subtle::CtOption::<T>::new')
def _(ex, st, a, info):
    return Adt(info.ty, 0, [a[0], choice(ex, a[1], st)])


def ct_parts(ex, v, st, tyid=None):
    v = D(ex, v, st)
    if isinstance(v, Adt):
        return v.fs
    t = v.ty if isinstance(v, Opq) else tyid
    inner = TY[t]['a'][0] if t is not None else None
    return project(v, 0, inner), project(v, 1, ty('subtle::Choice'))


@model('subtle::CtOption::<T>::is_some')
def _(ex, st, a, info):
    return ct_parts(ex, a[0], st)[1]


@model('subtle::CtOption::<T>::is_none')
def _(ex, st, a, info):
    return not_(ct_parts(ex, a[0], st)[1])


def under(ex, st, c, run, default):
    """run(state assuming c) -> [(st, v)]; effects are kept only when c holds."""
    if not ex.feasible(st, c):
        return [(st, default())]
    s1 = st.copy().add(c)
    outs = ex.merge_calls(s1.copy(), run(s1))
    if not outs:
        return [(st.add(not_(c)), default())]
    s2, v = outs[0]
    res = State_like(st)
    for o, x in s2.objs.items():
        if o not in st.objs:
            res.objs[o] = x
        elif st.objs[o] is not x:
            res.objs[o] = x if isinstance(st.objs[o], Uninit) else vite(c, x, st.objs[o])
    if c is TRUE or c in st.pcset:
        res = s2
    else:
        for x in s2.pc:
            if x not in st.pcset and x is not c:
                res.add(implies(c, x))
    return [(res, v)]


def State_like(st):
    return st.copy()


@model('subtle::CtOption::<T>::map')
def _(ex, st, a, info):
    v, c = ct_parts(ex, a[0], st)
    inner = TY[info.ty]['a'][0]
    outs = under(ex, st, c, lambda s: ex.call_value(a[1], [v], s, inner), lambda: mkval('ctnone', (), inner))
    return [(s, Adt(info.ty, 0, [x, c])) for s, x in outs]


@model('subtle::CtOption::<T>::and_then')
def _(ex, st, a, info):
    v, c = ct_parts(ex, a[0], st)
    inner = TY[info.ty]['a'][0]

    def none():
        return Adt(info.ty, 0, [mkval('ctnone', (), inner), FALSE])
    outs = under(ex, st, c, lambda s: ex.call_value(a[1], [v], s, info.ty), none)
    res = []
    for s, x in outs:
        xv, xc = ct_parts(ex, x, s, info.ty)
        res.append((s, Adt(info.ty, 0, [xv, and_(c, xc)])))
    return res


@model('subtle::CtOption::<T>::or_else')
def _(ex, st, a, info):
    v, c = ct_parts(ex, a[0], st)
    outs = under(ex, st, not_(c), lambda s: ex.call_value(a[1], [], s, info.ty), lambda: Adt(info.ty, 0, [v, FALSE]))
    res = []
    for s, x in outs:
        xv, xc = ct_parts(ex, x, s, info.ty)
        res.append((s, Adt(info.ty, 0, [vite(c, v, xv), or_(c, xc)])))
    return res


@pattern(r'subtle::CtOption::<T>::(unwrap|expect)')
def _(ex, st, a, info, m):
    v, c = ct_parts(ex, a[0], st)
    if not ex.implied(st, c):
        ex.panic(st.copy().add(not_(c)), 'CtOption::%s on None' % m.group(1), ex_where(info))
        if not ex.feasible(st, c):
            return []
        st.add(c)
    else:
        ex.npanic_checks += 1
    return v


def ex_where(info):
    return info.frame.fn['p'] if info.frame is not None else info.name


@model('subtle::CtOption::<T>::unwrap_or')
def _(ex, st, a, info):
    v, c = ct_parts(ex, a[0], st)
    return vite(c, v, a[1])


@model('subtle::CtOption::<T>::unwrap_or_else')
def _(ex, st, a, info):
    v, c = ct_parts(ex, a[0], st)
    outs = under(ex, st, not_(c), lambda s: ex.call_value(a[1], [], s, info.ty), lambda: v)
    return [(s, vite(c, v, x)) for s, x in outs]


@model('subtle::<impl std::convert::From<subtle::CtOption<T>> for std::option::Option<T>>::from')
def _(ex, st, a, info):
    v, c = ct_parts(ex, a[0], st)
    return opt(info.ty, c, v)


@model('subtle::CtOption::<T>::into_option')
def _(ex, st, a, info):
    v, c = ct_parts(ex, a[0], st)
    return opt(info.ty, c, v)


@model('<subtle::CtOption<T> as std::clone::Clone>::clone')
def _(ex, st, a, info):
    return D(ex, a[0], st)


def ct_elem(info):
    t = strip_ref(info.argtys[0]) if info.argtys[0] is not None else None
    return opt_inner(t) if t is not None and TY[t]['k'] == 'adt' else None


def fields_eq(v, w, t):
    """Equality of two values of type t, field by field where t is a struct."""
    if t is not None and TY[t]['k'] == 'adt' and TY[t]['p'] in ADTS and ADTS[TY[t]['p']]['k'] == 'struct':
        return and_(*[fields_eq(project(v, i, ft, 0), project(w, i, ft, 0), ft) for i, ft in enumerate(field_types(t, 0))])
    return eq(to_term(v), to_term(w))


@model('<subtle::CtOption<T> as subtle::ConstantTimeEq>::ct_eq')
def _(ex, st, a, info):
    v, c = ct_parts(ex, a[0], st)
    w, d = ct_parts(ex, a[1], st)
    both = fields_eq(ex.deep(v, st), ex.deep(w, st), ct_elem(info))
    return or_(and_(c, d, both), and_(not_(c), not_(d)))


# ------------------------------------------------------------------ hashes
def cat(*seqs):
    r = Seq([], ty('u8'))
    for s in seqs:
        r = seq_concat(r, s)
    return r


def blake2b(hash_len, personal, data, key=None):
    """Seq of the first hash_len bytes of BLAKE2b."""
    args = [to_term(personal), to_term(data)]
    if key is not None:
        args.append(to_term(key))
    t = uf('blake2b', args, 'U', hash_len)
    vals.KNOWN_LEN[t] = hash_len
    return as_seq(Opq(t, ty('[u8; %d]' % hash_len)))


B2P = Seq([('lit', [bvc(8, 0)] * 16)], None)


@model('blake2b_simd::Params::new', '<blake2b_simd::Params as std::default::Default>::default')
def _(ex, st, a, info):
    return Adt(None, 0, [bvc(64, 64), Seq([('lit', [bvc(8, 0)] * 16)], ty('u8')), Seq([], ty('u8'))])


@pattern(r'blake2b_simd::Params::(hash_length|personal|key)')
def _(ex, st, a, info, m):
    r = root_ref(ex, a[0], st)
    i = {'hash_length': 0, 'personal': 1, 'key': 2}[m.group(1)]
    v = D(ex, a[1], st)
    if i:
        v = as_seq(v)
        if i == 1:
            c = v.concrete()
            v = Seq([('lit', list(c) + [bvc(8, 0)] * (16 - len(c)))], ty('u8'))
    ex.write(st, r.obj, r.proj + (('f', i, None, 0),), v)
    return a[0]


@model('blake2b_simd::Params::to_state')
def _(ex, st, a, info):
    p = D(ex, a[0], st)
    return Adt(None, 0, list(p.fs) + [Seq([], ty('u8'))])


@model('blake2b_simd::State::update')
def _(ex, st, a, info):
    r = root_ref(ex, a[0], st)
    s = ex.read(st, r.obj, r.proj)
    fs = (('f', 3, None, 0),)
    cur = as_seq(project(s, 3, None), ty('u8'))
    ex.write(st, r.obj, r.proj + fs, seq_concat(cur, seqv(ex, a[1], st)))
    return a[0]


@model('<blake2b_simd::State as std::io::Write>::write_all')
def _(ex, st, a, info):
    r = root_ref(ex, a[0], st)
    s = ex.read(st, r.obj, r.proj)
    cur = as_seq(project(s, 3, None), ty('u8'))
    ex.write(st, r.obj, r.proj + (('f', 3, None, 0),), seq_concat(cur, seqv(ex, a[1], st)))
    return Adt(info.ty, 0, [UNIT])


def b2_final(hl, pers, key, data):
    if not is_c(hl):
        raise Unsupported('BLAKE2b output length')
    pers = as_seq(pers)
    c = pers.concrete()
    if c is not None and all(is_c(x) for x in c):
        pers = bytes_seq(bytes(x.data for x in c))
    k = as_seq(key)
    return blake2b(hl.data, pers, as_seq(data, ty('u8')), None if not k.segs else k)


@model('blake2b_simd::State::finalize')
def _(ex, st, a, info):
    s = D(ex, a[0], st)
    return b2_final(*[project(s, i, None) for i in (0, 1, 2, 3)])


@model('blake2b_simd::Params::hash')
def _(ex, st, a, info):
    p = D(ex, a[0], st)
    return b2_final(p.fs[0], p.fs[1], p.fs[2], seqv(ex, a[1], st))


@pattern(r'blake2b_simd::Hash::(as_bytes|as_array)')
def _(ex, st, a, info, m):
    return RefV(seqv(ex, a[0], st))


@pattern(r'<blake2b_simd::Hash as std::convert::AsRef<.*>>::as_ref')
def _(ex, st, a, info, m):
    return RefV(seqv(ex, a[0], st))


@model('<blake2b_simd::State as std::clone::Clone>::clone', '<blake2b_simd::Hash as std::clone::Clone>::clone', '<blake2b_simd::Params as std::clone::Clone>::clone')
def _(ex, st, a, info):
    return D(ex, a[0], st)


def prf_expand(sk, domain, t):
    """64 bytes of PRF^expand_sk([domain] || t)."""
    return blake2b(64, bytes_seq(b'Zcash_ExpandSeed'), cat(sk, Seq([('lit', [domain])]), t))


@pattern(r'zcash_spec::PrfExpand::<(.*)>::with')
def _(ex, st, a, info, m):
    p = D(ex, a[0], st)
    dom = project(p, 0, ty('u8'))
    t = cat(*[seqv(ex, x, st) for x in a[2:]])
    return prf_expand(seqv(ex, a[1], st), dom, t)


def sins_defined(dom, bits):
    return uf('sins_def', (dom, bits), 'B')


@pattern(r'halo2_gadgets::sinsemilla::primitives::(CommitDomain|HashDomain)::new')
def _(ex, st, a, info, m):
    return Opq(uf('sinsemilla', (tt(ex, a[0], st),), 'U', m.group(1)), info.ty)


def bits_term(ex, v, st):
    v = D(ex, v, st)
    s = ex.purify(v, st) if isinstance(v, It) else as_seq(v)
    s = seq_map(s, lambda x: D(ex, x, st))
    s.ety = ty('bool')
    return to_term(s)


@pattern(r'halo2_gadgets::sinsemilla::primitives::CommitDomain::(commit|short_commit)')
def _(ex, st, a, info, m):
    return sinsemilla_commit(info.ty, tt(ex, a[0], st), bits_term(ex, a[1], st), tt(ex, a[2], st), m.group(1) == 'short_commit')


def sinsemilla_commit(tyid, dom, bits, r, short):
    p = uf('sins_commit', (dom, bits, r))
    if short:
        v = fval(ite(geq(p, g_zero()), poly_const('Fp', 0), px(p)), 'Fp')
    else:
        v = gval(p)
    return Adt(tyid, 0, [v, sins_defined(dom, bits)])


@pattern(r'halo2_gadgets::sinsemilla::primitives::HashDomain::(hash|hash_to_point)')
def _(ex, st, a, info, m):
    dom, bits = tt(ex, a[0], st), bits_term(ex, a[1], st)
    p = uf('sins_hash', (dom, bits))
    v = fval(ite(geq(p, g_zero()), poly_const('Fp', 0), px(p)), 'Fp') if m.group(1) == 'hash' else gval(p)
    return Adt(info.ty, 0, [v, sins_defined(dom, bits)])


@pattern(r'halo2_gadgets::poseidon::primitives::Hash::<.*>::init')
def _(ex, st, a, info, m):
    return Opq(uf('poseidon', (), 'U', TY[info.ty]['s']), info.ty)


@pattern(r'halo2_gadgets::poseidon::primitives::Hash::<.*ConstantLength<L>.*>::hash')
def _(ex, st, a, info, m):
    h = D(ex, a[0], st)
    return mkval('poseidon_hash', [h.t, to_term(seqv(ex, a[1], st))], info.ty)


# ------------------------------------------------------------------ bits
@pattern(r'bitvec::array::BitArray::<A, O>::new')
def _(ex, st, a, info, m):
    if 'Msb0' in TY[info.ty]['s']:
        raise Unsupported('bit order of %s' % TY[info.ty]['s'])
    v = D(ex, a[0], st)
    bs = as_seq(v).concrete()
    if bs is None:
        raise Unsupported('bit array of unknown length')
    out = []
    for b in bs:
        for j in range(b.sort):
            out.append(eq(extract(j, j, b), bvc(1, 1)))
    return Seq([('lit', out)], ty('bool'))


@pattern(r'bitvec::array::ops::<impl std::ops::Deref(?:Mut)? for bitvec::array::BitArray<A, O>>::deref(?:_mut)?|<bitvec::array::BitArray<A, O> as std::ops::Deref>::deref')
def _(ex, st, a, info, m):
    return RefV(seqv(ex, a[0], st))


@pattern(r'bitvec::slice::api::<impl bitvec::slice::BitSlice<T, O>>::iter|bitvec::slice::BitSlice::<T, O>::iter')
def _(ex, st, a, info, m):
    return It(seqv(ex, a[0], st))


@pattern(r'bitvec::slice::Iter::<\'a, T, O>::(by_vals|by_refs)')
def _(ex, st, a, info, m):
    return a[0]


@pattern(r'bitvec::slice::api::<impl bitvec::slice::BitSlice<T, O>>::len|bitvec::slice::BitSlice::<T, O>::len')
def _(ex, st, a, info, m):
    return seq_len(seqv(ex, a[0], st))


# ------------------------------------------------------------------ integers
IW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
INT = r'(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)'


@pattern(r'(?:core|std)::num::<impl %s>::(\w+)' % INT)
def _(ex, st, a, info, m):
    n, op = m.group(1), m.group(2)
    w = IW[n]
    sg = n[0] == 'i'
    mx = bvc(w, (1 << (w - 1)) - 1 if sg else -1)
    mn = bvc(w, 1 << (w - 1) if sg else 0)
    if op in ('to_le_bytes', 'to_ne_bytes'):
        return bytes_le(D(ex, a[0], st))
    if op == 'to_be_bytes':
        return Seq([('lit', bytes_le(D(ex, a[0], st)).concrete()[::-1])], ty('u8'))
    if op in ('from_le_bytes', 'from_ne_bytes'):
        return from_le(seqv(ex, a[0], st))
    if op == 'from_be_bytes':
        return from_le(Seq([('lit', seqv(ex, a[0], st).concrete()[::-1])]))
    x = a[0]
    if not isinstance(x, T):
        x = D(ex, x, st)
    y = a[1] if len(a) > 1 else None
    if y is not None and not isinstance(y, T):
        y = D(ex, y, st)
    mm = re.match(r'(checked|wrapping|saturating|overflowing|strict|unchecked)_(add|sub|mul)\Z', op)
    if mm:
        r, o = arith_overflow(mm.group(2).capitalize(), x, y, sg)
        k = mm.group(1)
        if k in ('wrapping', 'unchecked'):
            return r
        if k == 'checked':
            return opt(info.ty, not_(o), r)
        if k == 'overflowing':
            return Tup([r, o])
        if k == 'saturating':
            if not sg:
                lim = mn if mm.group(2) == 'sub' else mx
            elif mm.group(2) == 'add':
                lim = ite(slt(x, bvc(w, 0)), mn, mx)
            elif mm.group(2) == 'sub':
                lim = ite(slt(x, bvc(w, 0)), mn, mx)
            else:
                lim = ite(eq(slt(x, bvc(w, 0)), slt(y, bvc(w, 0))), mx, mn)
            return ite(o, lim, r)
        return NotImplemented
    mm = re.match(r'(checked|wrapping|overflowing|unsigned|saturating)_(neg|abs)\Z', op)
    z = bvc(w, 0)
    if op in ('abs', 'wrapping_abs', 'unsigned_abs', 'checked_abs', 'saturating_abs', 'checked_neg', 'wrapping_neg'):
        if op.endswith('abs'):
            r = ite(slt(x, z), neg(x), x)
            o = eq(x, mn)
        else:
            r = neg(x)
            o = eq(x, mn) if sg else not_(eq(x, z))
        if op in ('wrapping_abs', 'unsigned_abs', 'wrapping_neg'):
            return r
        if op.startswith('checked'):
            return opt(info.ty, not_(o), r)
        if op == 'saturating_abs':
            return ite(o, mx, r)
        if not ex.implied(st, not_(o)):
            ex.panic(st.copy().add(o), 'abs overflow', ex_where(info))
            if not ex.feasible(st, not_(o)):
                return []
            st.add(not_(o))
        else:
            ex.npanic_checks += 1
        return r
    if op == 'is_negative':
        return slt(x, z)
    if op == 'is_positive':
        return slt(z, x)
    if op == 'signum':
        return ite(slt(x, z), bvc(w, -1), ite(eq(x, z), z, bvc(w, 1)))
    if op == 'pow' and is_c(y):
        r = bvc(w, 1)
        for _ in range(y.data):
            r = bvmul(r, x)
        if is_c(x) and not sg and x.data ** y.data >= 1 << w:
            return NotImplemented
        if not is_c(x):
            return NotImplemented
        return r
    if op in ('abs_diff',):
        lt = slt(x, y) if sg else ult(x, y)
        return ite(lt, bvsub(y, x), bvsub(x, y))
    if op in ('rotate_left', 'rotate_right') and is_c(y):
        s = y.data % w
        if op == 'rotate_right':
            s = (w - s) % w
        return bvor(shl(x, bvc(w, s)), lshr(x, bvc(w, w - s))) if s else x
    if op in ('rem_euclid', 'div_euclid', 'wrapping_rem', 'wrapping_div', 'wrapping_rem_euclid', 'wrapping_div_euclid', 'div_ceil', 'checked_rem_euclid', 'checked_div_euclid') or sg and op in ('checked_div', 'checked_rem') or op in ('checked_div', 'checked_rem'):
        q, r = (sdiv(x, y), srem(x, y)) if sg else (udiv(x, y), urem(x, y))
        over = and_(eq(x, mn), eq(y, bvc(w, -1))) if sg else FALSE
        if op.endswith('euclid') and sg:
            low = slt(r, z)
            q = ite(low, ite(slt(z, y), bvsub(q, bvc(w, 1)), bvadd(q, bvc(w, 1))), q)
            r = ite(low, ite(slt(z, y), bvadd(r, y), bvsub(r, y)), r)
        if op == 'div_ceil':
            if sg:
                return NotImplemented
            q = ite(eq(r, z), q, bvadd(q, bvc(w, 1)))
        res = r if 'rem' in op else q
        if over is not FALSE and op.startswith('wrapping'):
            res = ite(over, z if 'rem' in op else mn, res)
        if op.startswith('checked'):
            return opt(info.ty, not_(or_(eq(y, z), over)), res)
        bad = eq(y, z) if op.startswith('wrapping') else or_(eq(y, z), over)
        if not ex.implied(st, not_(bad)):
            ex.panic(st.copy().add(bad), 'division by zero or overflow in ' + op, ex_where(info))
            if not ex.feasible(st, not_(bad)):
                return []
            st.add(not_(bad))
        else:
            ex.npanic_checks += 1
        return res
    if op in ('count_ones', 'count_zeros', 'is_power_of_two', 'leading_zeros', 'trailing_zeros', 'leading_ones', 'trailing_ones'):
        v = bvnot(x) if op in ('count_zeros', 'leading_ones', 'trailing_ones') else x
        bits = [eq(extract(i, i, v), bvc(1, 1)) for i in range(w)]
        if op in ('leading_zeros', 'trailing_zeros', 'leading_ones', 'trailing_ones'):
            r = bvc(32, w)
            for i in (range(w) if op.startswith('leading') else reversed(range(w))):
                r = ite(bits[i], bvc(32, w - 1 - i if op.startswith('leading') else i), r)
            return r
        r = bvc(32, 0)
        for b in bits:
            r = bvadd(r, ite(b, bvc(32, 1), bvc(32, 0)))
        return eq(r, bvc(32, 1)) if op == 'is_power_of_two' else r
    if op == 'swap_bytes':
        return from_le(Seq([('lit', bytes_le(x).concrete()[::-1])]))
    if op in ('checked_shl', 'checked_shr') and y.sort == 32:
        s = zext(w, y) if w > 32 else extract(w - 1, 0, y) if w < 32 else y
        return opt(info.ty, ult(y, bvc(32, w)), shl(x, s) if op.endswith('l') else ashr(x, s) if sg else lshr(x, s))
    if op in ('checked_div', 'checked_rem', 'checked_shl', 'checked_shr', 'wrapping_shl', 'wrapping_shr', 'div_ceil', 'is_power_of_two', 'count_ones', 'leading_zeros', 'trailing_zeros'):
        if op.startswith('wrapping'):
            s = bvand(zext(w, y) if y.sort < w else (extract(w - 1, 0, y) if y.sort > w else y), bvc(w, w - 1))
            return shl(x, s) if op.endswith('l') else (ashr(x, s) if sg else lshr(x, s))
        if op in ('checked_div', 'checked_rem') and not sg:
            return opt(info.ty, not_(eq(y, z)), udiv(x, y) if op == 'checked_div' else urem(x, y))
        return NotImplemented
    if op in ('from_str_radix',):
        return NotImplemented
    return NotImplemented


@pattern(r'(?:std|core)::convert::num::(?:ptr_try_from_impls::)?<impl std::convert::(Try)?From<%s> for %s>::\w+' % (INT[:-1] + '|bool|char)', INT))
def _(ex, st, a, info, m):
    tf, s, d = m.group(1), m.group(2), m.group(3)
    x = a[0]
    sgs, sgd = s[0] == 'i', d[0] == 'i'
    w = IW[d]
    if not tf:
        return int_cast(x, w, sgs)
    ws = IW[s]
    big = max(w, ws) + 1
    X = sext(big, x) if sgs else zext(big, x)
    lo = bvc(big, -(1 << (w - 1)) if sgd else 0)
    hi = bvc(big, (1 << (w - 1)) - 1 if sgd else (1 << w) - 1)
    ok = and_(sle(lo, X), sle(X, hi))
    res = info.ty
    et = TY[res]['a'][1]
    return vite(ok, Adt(res, 0, [int_cast(x, w, sgs)]), Adt(res, 1, [mkval('TryFromIntError', (), et)]))


@pattern(r'(?:std|core)::cmp::impls::<impl std::cmp::(?:Ord|PartialOrd|PartialEq) for %s>::(\w+)' % (INT[:-1] + '|bool)'))
def _(ex, st, a, info, m):
    x, y = D(ex, a[0], st), D(ex, a[1], st)
    if m.group(1) == 'bool':
        x, y = bv_of_bool(x, 8), bv_of_bool(y, 8)
    sg = m.group(1)[0] == 'i'
    lt = slt if sg else ult
    op = m.group(2)
    if op == 'eq':
        return eq(x, y)
    if op == 'ne':
        return not_(eq(x, y))
    if op == 'cmp':
        return ordering(info.ty, lt(x, y), eq(x, y))
    if op == 'partial_cmp':
        return Adt(info.ty, 1, [ordering(opt_inner(info.ty), lt(x, y), eq(x, y))])
    return {'lt': lambda: lt(x, y), 'le': lambda: not_(lt(y, x)), 'gt': lambda: lt(y, x), 'ge': lambda: not_(lt(x, y)),
            'max': lambda: ite(lt(y, x), x, y), 'min': lambda: ite(lt(y, x), y, x),
            'clamp': lambda: (lambda z: ite(lt(x, y), y, ite(lt(z, x), z, x)) if not_(lt(z, y)) is TRUE else NotImplemented)(D(ex, a[2], st))}.get(op, lambda: NotImplemented)()


@pattern(r'(?:std|core)::cmp::(max|min)')
def _(ex, st, a, info, m):
    if not isinstance(a[0], T):
        return NotImplemented
    sg = info.ty is not None and TY[info.ty]['k'] == 'int'
    lt = slt(a[1], a[0]) if sg else ult(a[1], a[0])
    return ite(lt, a[0], a[1]) if m.group(1) == 'max' else ite(lt, a[1], a[0])


@pattern(r'(?:std|core)::cmp::Ord::(max|min)')
def _(ex, st, a, info, m):
    if not (isinstance(a[0], T) and a[0].sort != 'B'):
        return NotImplemented
    sg = info.ty is not None and TY[info.ty]['k'] == 'int'
    lt = slt(a[1], a[0]) if sg else ult(a[1], a[0])
    return ite(lt, a[0], a[1]) if m.group(1) == 'max' else ite(lt, a[1], a[0])


@pattern(r'<%s as std::ops::(Add|Sub|Mul|BitAnd|BitOr|BitXor)(?:<.*>)?>::\w+' % INT)
def _(ex, st, a, info, m):
    x, y = D(ex, a[0], st), D(ex, a[1], st)
    n, op = m.group(1), m.group(2)
    if op.startswith('Bit'):
        return {'BitAnd': bvand, 'BitOr': bvor, 'BitXor': bvxor}[op](x, y)
    r, o = arith_overflow(op, x, y, n[0] == 'i')
    if not ex.implied(st, not_(o)):
        ex.panic(st.copy().add(o), 'overflow', ex_where(info))
        if not ex.feasible(st, not_(o)):
            return []
        st.add(not_(o))
    return r


@pattern(r'<%s as std::(?:default::Default>::default|clone::Clone>::clone)' % (INT[:-1] + '|bool)'))
def _(ex, st, a, info, m):
    if not a:
        return FALSE if m.group(1) == 'bool' else bvc(IW[m.group(1)], 0)
    return D(ex, a[0], st)


# ------------------------------------------------------------------ panics
@pattern(r'(?:core|std)::panicking::\w+(?:::<.*>)?|std::rt::(?:begin_)?panic\w*|(?:core|std)::(?:result|option)::(?:unwrap_failed|expect_failed|expect_none_failed)|(?:core|std)::slice::index::slice_\w+|std::process::abort|(?:alloc|std)::(?:raw_vec|alloc)::\w+_error|core::panicking::\w+::\w+')
def _(ex, st, a, info, m):
    msg = info.name
    if a and isinstance(a[0], RefV) and isinstance(a[0].v, Seq):
        c = a[0].v.concrete()
        if c is not None and all(isinstance(x, T) and is_c(x) for x in c):
            msg += ': ' + bytes(x.data for x in c).decode('latin1')
    ex.panic(st, msg, ex_where(info))
    return []


# ------------------------------------------------------------------ slices, vectors
def need(ex, st, c, msg, info):
    """Panic obligation; returns False if the rest is unreachable."""
    if ex.implied(st, c):
        ex.npanic_checks += 1
        return True
    ex.panic(st.copy().add(not_(c)), msg, ex_where(info))
    if not ex.feasible(st, c):
        return False
    st.add(c)
    return True


def lref(ex, v, st):
    """Location of the sequence behind a reference, or None."""
    return root_ref(ex, v, st)


def elem_refs(ex, v, st, mut=False):
    """Sequence of references to the elements of the sequence behind v."""
    q = lref(ex, v, st)
    s = seqv(ex, v, st)
    if not mut or q is None:
        r = seq_map(s, lambda x: RefV(x))
        return r
    segs, off = [], bvc(64, 0)
    for g in s.segs:
        if g[0] == 'lit':
            segs.append(('lit', [Ref(q.obj, q.proj + (('x', bvadd(off, bvc(64, i))),)) for i in range(len(g[1]))]))
            off = bvadd(off, bvc(64, len(g[1])))
        elif g[0] == 'lam':
            k = fresh('i', 64)
            segs.append(('lam', g[1], k, Ref(q.obj, q.proj + (('x', bvadd(off, k)),))))
            off = bvadd(off, g[1])
        else:
            raise Unsupported('iter_mut over flat')
    return Seq(segs, None)


@pattern(r'core::slice::<impl \[T\]>::(iter|iter_mut)|nonempty::NonEmpty::<T>::(iter|iter_mut)|std::vec::Vec::<T, A>::(iter|iter_mut)')
def _(ex, st, a, info, m):
    n = m.group(1) or m.group(2) or m.group(3)
    return It(elem_refs(ex, a[0], st, n == 'iter_mut'))


@pattern(r'(?:core|std)::slice::iter::<impl std::iter::IntoIterator for &\'a (mut )?\[T\]>::into_iter|(?:std|core)::slice::<impl std::iter::IntoIterator for &\'a (mut )?\[T\]>::into_iter|<&\'a (mut )?(?:std::vec::Vec<T, A>|nonempty::NonEmpty<T>|\[T\]|\[T; N\]) as std::iter::IntoIterator>::into_iter|.*<impl std::iter::IntoIterator for &\'a (mut )?\[T; N\]>::into_iter')
def _(ex, st, a, info, m):
    return It(elem_refs(ex, a[0], st, bool(m.group(1) or m.group(2) or m.group(3) or m.group(4))))


@pattern(r'<(?:std::vec::Vec<T, A>|nonempty::NonEmpty<T>) as std::iter::IntoIterator>::into_iter|(?:std|core)::array::(?:iter::)?<impl std::iter::IntoIterator for \[T; N\]>::into_iter')
def _(ex, st, a, info, m):
    return It(seqv(ex, a[0], st))


@pattern(r'<(?:std::option::Option<T>|std::result::Result<T, E>) as std::iter::IntoIterator>::into_iter|std::option::Option::<T>::iter')
def _(ex, st, a, info, m):
    return as_iter(ex, a[0], st)


@model('<I as std::iter::IntoIterator>::into_iter')
def _(ex, st, a, info):
    v = ex.resolve(a[0], st)
    if isinstance(v, (It, Opq)):
        return v
    return v


@model('std::iter::IntoIterator::into_iter')
def _(ex, st, a, info):
    v = ex.resolve(a[0], st)
    if isinstance(v, It):
        return v
    if isinstance(v, Opq) and v.ty is not None and TY[v.ty]['k'] in ('param', 'alias', 'opaque'):
        # a caller-supplied iterable: the sequence of the items it will yield
        return It(Seq([('lam', smart('len', (v.t,), 64), (k := fresh('i', 64)), mkval('idx', (v.t, k), assoc_item(info)))]))
    return NotImplemented


def assoc_item(info):
    return None


@pattern(r'std::iter::(empty|once)')
def _(ex, st, a, info, m):
    return It(Seq([('lit', list(a))]))


@model('std::iter::repeat_with')
def _(ex, st, a, info):
    return It(('repeat', None), (('repeat_with', a[0], None),))


@model('std::iter::repeat')
def _(ex, st, a, info):
    return It(('repeat', None), (('const', a[0]),))


@pattern(r'(?:std::iter::Iterator|<.* as std::iter::(?:Iterator|DoubleEndedIterator|ExactSizeIterator)>|std::iter::(?:ExactSize|DoubleEnded)Iterator)::(\w+)')
def _(ex, st, a, info, m):
    op = m.group(1)
    f = ITER.get(op)
    if f is None:
        return NotImplemented
    return f(ex, st, a, info)


ITER = {}


def iter_op(*names):
    def d(f):
        for n in names:
            ITER[n] = f
        return f
    return d


def as_iter(ex, v, st, info=None):
    v = ex.resolve(v, st)
    while isinstance(v, (Ref, RefV)):
        v = ex.resolve(ex.deref(v, st), st)
    if isinstance(v, It):
        return v
    if isinstance(v, Seq):
        return It(v)
    if isinstance(v, Adt) and v.ty is not None and adt_name(v.ty) in ('std::ops::Range',):
        lo, hi = v.fs
        n = ite(ult(lo, hi), bvsub(hi, lo), bvc(lo.sort, 0))
        nn = zext(64, n) if n.sort < 64 else n
        k = fresh('i', 64)
        w = lo.sort
        return It(Seq([('lam', nn, k, bvadd(lo, extract(w - 1, 0, k) if w < 64 else k))]))
    if isinstance(v, Adt) and v.ty is not None and adt_name(v.ty) in ('std::ops::RangeInclusive',):
        lo, hi = v.fs[0], v.fs[1]
        if is_c(lo) and is_c(hi):
            w = lo.sort
            return It(Seq([('lit', [bvc(w, i) for i in range(lo.data, hi.data + 1)])]))
    if isinstance(v, Adt) and v.ty is not None and adt_name(v.ty) in ('std::option::Option', 'std::result::Result'):
        some = 1 if adt_name(v.ty) == 'std::option::Option' else 0
        return It(Seq([('lit', [v.fs[0]] if v.var == some else [])]))
    if isinstance(v, Opq):
        k = fresh('i', 64)
        return It(Seq([('lam', smart('len', (v.t,), 64), k, mkval('idx', (v.t, k), elem_type(v.ty) if v.ty is not None else None))]))
    raise Unsupported('iterator %r' % (v,))


def item_ty(ex, f):
    """Return type of a closure value."""
    if isinstance(f, Clo):
        fn = ex.fns[f.fn]
        return fn['l'][0]
    if isinstance(f, FnItem):
        i = f.callee.get('i')
        if i is not None and 'l' in ex.fns[i]:
            return ex.fns[i]['l'][0]
    return None


@iter_op('by_ref')
def _(ex, st, a, info):
    return a[0]


@iter_op('map')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    return It(it.src, it.ops + (('map', ex.alloc_clo(st, a[1]), item_ty(ex, a[1])),))


@iter_op('inspect')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    return It(it.src, it.ops + (('inspect', ex.alloc_clo(st, a[1])),))


@iter_op('filter')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    return It(it.src, it.ops + (('filter', ex.alloc_clo(st, a[1])),))


@iter_op('filter_map')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    return It(it.src, it.ops + (('filter_map', ex.alloc_clo(st, a[1]), item_ty(ex, a[1])),))


@iter_op('flatten')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    return It(it.src, it.ops + (('flatten_opt',),))


@iter_op('flat_map')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    return It(it.src, it.ops + (('map', ex.alloc_clo(st, a[1]), item_ty(ex, a[1])), ('flatten_opt',)))


@iter_op('scan')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    o = ex.alloc(st, a[1])
    return It(it.src, it.ops + (('scan', Ref(o), ex.alloc_clo(st, a[2]), item_ty(ex, a[2])),))


@iter_op('copied', 'cloned')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    if not it.ops and isinstance(it.src, Seq):
        return It(seq_map(it.src, lambda v: ex.deref(v, st) if isinstance(v, (Ref, RefV)) else v))
    return It(it.src, it.ops + (('deref',),))


@iter_op('enumerate')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    return It(it.src, it.ops + (('enumerate',),))


@iter_op('into_iter', 'fuse', 'peekable')
def _(ex, st, a, info):
    return as_iter(ex, a[0], st)


@iter_op('rev')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    s = ex.purify(it, st)
    c = s.concrete()
    if c is not None:
        return It(Seq([('lit', c[::-1])], s.ety))
    if len(s.segs) == 1 and s.segs[0][0] == 'lam':
        _, n, k, b = s.segs[0]
        return It(Seq([('lam', n, k, vsubst(b, {k: bvsub(bvsub(n, k), bvc(64, 1))}))], s.ety))
    raise Unsupported('reverse')


@iter_op('chain')
def _(ex, st, a, info):
    x = as_iter(ex, a[0], st)
    y = as_iter(ex, a[1], st)
    if isinstance(x.src, Seq) and not x.ops and isinstance(y.src, Seq) and not y.ops:
        return It(seq_concat(x.src, y.src))
    return It(('chain', x, y))


def it_len(ex, it, st):
    if any(o[0] in ('filter', 'filter_map', 'flatten_opt') for o in it.ops):
        return None
    if isinstance(it.src, Seq):
        return seq_len(it.src)
    if it.src[0] == 'repeat':
        return it.src[1]
    if it.src[0] == 'chain':
        x, y = it_len(ex, it.src[1], st), it_len(ex, it.src[2], st)
        return None if x is None or y is None else bvadd(x, y)
    return None


@iter_op('take')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    n = a[1]
    if not isinstance(it.src, V) and it.src[0] == 'repeat' and it.src[1] is None:
        return It(('repeat', n), it.ops)
    if not isinstance(it.src, V) and it.src[0] == 'chain' and not any(o[0] in ('filter', 'filter_map', 'flatten_opt') for o in it.ops):
        y = it.src[2]
        ln = it_len(ex, it.src[1], st)
        if ln is not None and not isinstance(y.src, V) and y.src[0] == 'repeat' and y.src[1] is None:
            # a finite sequence continued by a generator
            m = n if ex.implied(st, ule(n, ln)) else ln if ex.implied(st, ule(ln, n)) else ite(ult(n, ln), n, ln)
            x = it.src[1] if m is ln else ITER['take'](ex, st, [it.src[1], m], info)
            return It(('chain', x, It(('repeat', bvsub(n, m)), y.ops)), it.ops)
    if any(o[0] in ('filter', 'filter_map', 'flatten_opt') for o in it.ops) or not isinstance(it.src, Seq):
        it = It(ex.purify(it, st))
    ln = seq_len(it.src)
    if is_c(n) and is_c(ln):
        m = bvc(64, min(n.data, ln.data))
    elif ex.implied(st, ule(n, ln)):
        m = n
    elif ex.implied(st, ule(ln, n)):
        m = ln
    else:
        m = ite(ult(n, ln), n, ln)
    return It(seq_slice(it.src, bvc(64, 0), m), it.ops)


@iter_op('skip')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    if it.ops or not isinstance(it.src, Seq):
        it = It(ex.purify(it, st))
    n = seq_len(it.src)
    k = a[1] if is_c(a[1]) and is_c(n) and a[1].data <= n.data else ite(ult(a[1], n), a[1], n)
    return It(seq_slice(it.src, k, n))


@iter_op('zip')
def _(ex, st, a, info):
    x = as_iter(ex, a[0], st)
    y = as_iter(ex, ex.into_iter(a[1], st), st)
    if not isinstance(x.src, Seq) or any(o[0] in ('filter', 'filter_map', 'flatten_opt') for o in x.ops):
        x = It(ex.purify(x, st))
    if not isinstance(y.src, Seq) or y.ops:
        y = It(ex.purify(y, st))
    n, m = seq_len(x.src), seq_len(y.src)
    if x.ops:
        # zip(map(f, xs), ys): pair after the stages
        if not ex.implied(st, ule(n, m)):
            x = It(ex.purify(x, st))
        else:
            return It(x.src, x.ops + (('zipwith', y.src),))
    return It(seq_zip(ex, st, x.src, y.src, n, m))


def seq_zip(ex, st, x, y, n, m):
    cx, cy = x.concrete(), y.concrete()
    if cx is not None and cy is not None:
        return Seq([('lit', [Tup(p) for p in zip(cx, cy)])])
    # aligned segments
    if len(x.segs) == len(y.segs) and all(g[0] == h[0] and g[0] in ('lit', 'lam') and (len(g[1]) == len(h[1]) if g[0] == 'lit' else g[1] is h[1]) for g, h in zip(x.segs, y.segs)):
        segs = []
        for g, h in zip(x.segs, y.segs):
            if g[0] == 'lit':
                segs.append(('lit', [Tup(p) for p in zip(g[1], h[1])]))
            else:
                segs.append(('lam', g[1], g[2], Tup([g[3], vsubst(h[3], {h[2]: g[2]})])))
        return Seq(segs)
    ln = n if n is m or ex.implied(st, ule(n, m)) else m if ex.implied(st, ule(m, n)) else ite(ult(n, m), n, m)
    k = fresh('i', 64)
    if is_c(ln) and ln.data <= 4096:
        return Seq([('lit', [Tup([seq_at(x, bvc(64, i)), seq_at(y, bvc(64, i))]) for i in range(ln.data)])])
    return Seq([('lam', ln, k, Tup([seq_at(x, k), seq_at(y, k)]))])


@iter_op('collect')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    return collect_as(ex, st, it, info.ty)


def collect_as(ex, st, it, t):
    T_ = TY[t]
    if T_['k'] == 'adt' and T_['p'] in ('std::vec::Vec',):
        seq, after = ex.collect(it, st, T_['a'][0])
        return [(after, seq)]
    if T_['k'] == 'adt' and T_['p'] == 'std::boxed::Box':
        seq, after = ex.collect(it, st, elem_type(T_['a'][0]))
        return [(after, seq)]
    if T_['k'] == 'adt' and T_['p'] == 'std::result::Result':
        return try_collect(ex, st, it, t, 0, 1)
    if T_['k'] == 'adt' and T_['p'] == 'std::option::Option':
        return try_collect(ex, st, it, t, 1, 0)
    raise Unsupported('collect into %s' % T_['s'])


def try_collect(ex, st, it, t, good, bad):
    inner = TY[t]['a'][0]
    ety = elem_type(inner) if is_seq_type(inner) else None
    isres = TY[t]['p'] == 'std::result::Result'
    acc = ex.alloc(st, Seq([], ety))

    def body(s, v):
        outs = []
        d = ex.discr(v, 64, s)
        g = eq(d, bvc(64, good))
        if ex.feasible(s, g):
            s2 = s.copy().add(g)
            x = project(ex.resolve(v, s2), 0, ety, good)
            s2.objs[acc] = seq_concat(as_seq(s2.objs[acc], ety), Seq([('lit', [x])], ety))
            outs.append(('back', s2))
        if ex.feasible(s, not_(g)):
            s3 = s.copy().add(not_(g))
            e = project(ex.resolve(v, s3), 0, TY[t]['a'][1], bad) if isres else UNIT
            outs.append(('exit', s3, e))
        return outs
    ex_, after = ex.consume(it, st, body)
    res = []
    for s, e in ex_:
        res.append((s, Adt(t, bad, [e] if isres else [])))
    if after is not None:
        r = as_seq(after.objs[acc], ety)
        if not is_seq_type(inner):
            if TY[inner]['k'] == 'tuple' and not TY[inner]['e']:
                r = UNIT
            else:
                raise Unsupported('collect into %s' % TY[t]['s'])
        res.append((after, Adt(t, good, [r])))
    return res


@iter_op('unzip')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    t = TY[info.ty]
    e0, e1 = [elem_type(x) for x in t['e']]
    o1, o2 = ex.alloc(st, Seq([], e0)), ex.alloc(st, Seq([], e1))

    def body(s, v):
        v = ex.resolve(v, s)
        s.objs[o1] = seq_concat(as_seq(s.objs[o1], e0), Seq([('lit', [project(v, 0, e0)])], e0))
        s.objs[o2] = seq_concat(as_seq(s.objs[o2], e1), Seq([('lit', [project(v, 1, e1)])], e1))
        return [('back', s)]
    _, after = ex.consume(it, st, body)
    return [(after, Tup([as_seq(after.objs[o1], e0), as_seq(after.objs[o2], e1)]))]


@iter_op('fold')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    acc = ex.alloc(st, a[1])
    f = ex.alloc_clo(st, a[2])

    def body(s, v):
        base = s.copy()
        outs = ex.merge_calls(base, ex.call_value(f, [s.objs[acc], v], s, info.ty))
        r = []
        for s2, x in outs:
            s2.objs[acc] = x
            r.append(('back', s2))
        return r
    _, after = ex.consume(it, st, body)
    return [(after, after.objs[acc])] if after is not None else []


def try_parts(t):
    """(good variant, bad variant) of Option / Result / ControlFlow."""
    p = TY[t]['p']
    return {'std::option::Option': (1, 0), 'std::result::Result': (0, 1), 'std::ops::ControlFlow': (0, 1)}[p]


@iter_op('try_fold')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    f = ex.alloc_clo(st, a[2])
    t = info.ty
    good, bad = try_parts(t)
    gty = TY[t]['a'][0] if TY[t]['p'] != 'std::ops::ControlFlow' else TY[t]['a'][1]
    acc = ex.alloc(st, a[1])

    def body(s, v):
        outs = []
        for s2, x in ex.call_value(f, [s.objs[acc], v], s, t):
            g = eq(ex.discr(x, 64, s2), bvc(64, good))
            if ex.feasible(s2, g):
                s3 = s2.copy().add(g)
                s3.objs[acc] = project(ex.resolve(x, s3), 0, gty, good)
                outs.append(('back', s3))
            if ex.feasible(s2, not_(g)):
                s3 = s2.copy().add(not_(g))
                outs.append(('exit', s3, ex.resolve(x, s3)))
        return outs
    exits, after = ex.consume(it, st, body)
    res = [(s, x) for s, x in exits]
    if after is not None:
        res.append((after, Adt(t, good, [after.objs[acc]])))
    return res


@iter_op('for_each', 'try_for_each')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    f = ex.alloc_clo(st, a[1])
    if info.name.endswith('try_for_each'):
        raise Unsupported('try_for_each')

    def body(s, v):
        return [('back', s2) for s2, _ in ex.call_value(f, [v], s, ty('()') if '()' in vals.TYIDX else None)]
    _, after = ex.consume(it, st, body)
    return [(after, UNIT)]


@iter_op('find_map', 'find', 'any', 'all', 'position')
def _(ex, st, a, info):
    op = info.name.rsplit('::', 1)[1]
    it = as_iter(ex, a[0], st)
    f = ex.alloc_clo(st, a[1])
    pos = ex.alloc(st, bvc(64, 0)) if op == 'position' else None

    def body(s, v):
        outs = []
        arg = RefV(v) if op == 'find' and not isinstance(v, Ref) else v
        if op == 'find' and isinstance(v, Ref):
            arg = RefV(v)
        rty = info.ty if op == 'find_map' else ty('bool')
        for s2, x in ex.call_value(f, [arg], s, rty):
            if op == 'find_map':
                c = eq(ex.discr(x, 64, s2), bvc(64, 1))
            else:
                c = x if op != 'all' else not_(x)
            if ex.feasible(s2, c):
                s3 = s2.copy().add(c)
                if op == 'find_map':
                    pl = ex.resolve(x, s3)
                elif op == 'find':
                    pl = Adt(info.ty, 1, [v])
                elif op == 'position':
                    pl = Adt(info.ty, 1, [s3.objs[pos]])
                else:
                    pl = boolc(op == 'any')
                outs.append(('exit', s3, pl))
            if ex.feasible(s2, not_(c)):
                s4 = s2.copy().add(not_(c))
                if pos is not None:
                    s4.objs[pos] = bvadd(s4.objs[pos], bvc(64, 1))
                outs.append(('back', s4))
        return outs
    exits, after = ex.consume(it, st, body)
    res = list(exits)
    if after is not None:
        res.append((after, Adt(info.ty, 0, []) if op in ('find_map', 'find', 'position') else boolc(op == 'all')))
    return res


@iter_op('len', 'count')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    n = it_len(ex, it, st)
    if n is None:
        s = ex.purify(it, st)
        return seq_len(s)
    return n


@iter_op('size_hint')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    n = it_len(ex, it, st)
    if n is None:
        return NotImplemented
    t = TY[info.ty]['e']
    return Tup([n, Adt(t[1], 1, [n])])


@iter_op('sum', 'product')
def _(ex, st, a, info):
    # dispatch to the Sum implementation of the result type
    if info.name.endswith('product'):
        raise Unsupported('product')
    t = TY[info.ty]['s']
    it = as_iter(ex, a[0], st)
    for f in ex.fns:
        if f and ' as std::iter::Sum' in f.get('trait', '') and f.get('local') and 'b' in f and f['p'].endswith('::sum') and TY[f['l'][0]]['s'] == t:
            # choose by item type: owned or borrowed
            tr = f.get('trait', '')
            byref = '&' in f['p'] or '&' in tr
            e = first_elem(ex, it, st)
            isref = isinstance(e, (Ref, RefV)) if e is not None else byref
            if byref == isref:
                ex.inlined.add(f['p'])
                c = ex.contracts.get(f['p'])
                info2 = type(info)()
                for s in ('callee', 'name', 'argtys', 'ty', 'frame', 'bb'):
                    setattr(info2, s, getattr(info, s, None))
                if c is not None:
                    r = c.apply(ex, st, [it], info2)
                    if r is not NotImplemented:
                        ex.used_contracts.add(f['p'])
                        return r
                return ex.run_fn(f, [it], st)
    if sort_of(info.ty) not in ('U', 'B'):
        w = sort_of(info.ty)
        acc = ex.alloc(st, bvc(w, 0))
        sg = TY[info.ty]['k'] == 'int'

        def body(s, v):
            v = D(ex, v, s)
            r, o = arith_overflow('Add', s.objs[acc], v, sg)
            if not ex.implied(s, not_(o)):
                ex.panic(s.copy().add(o), 'overflow in sum', ex_where(info))
                s.add(not_(o))
            s.objs[acc] = r
            return [('back', s)]
        _, after = ex.consume(it, st, body)
        return [(after, after.objs[acc])]
    return NotImplemented


def first_elem(ex, it, st):
    if it.ops and it.ops[-1][0] == 'map':
        t = it.ops[-1][2]
        if t is not None:
            return RefV(UNIT) if TY[t]['k'] == 'ref' else UNIT
        return None
    if isinstance(it.src, Seq) and it.src.segs and not it.ops:
        g = it.src.segs[0]
        return g[1][0] if g[0] == 'lit' else g[3]
    return None


@iter_op('next')
def _(ex, st, a, info):
    q = root_ref(ex, a[0], st)
    if q is None:
        raise Unsupported('next on a temporary')
    it = as_iter(ex, ex.read(st, q.obj, q.proj), st)
    it = flatten_chain(ex, it, st)
    T_ = info.ty
    src = it.src
    if not isinstance(src, V):
        if src[0] == 'done':
            return Adt(T_, 0, [])
        if src[0] == 'one':
            ex.write(st, q.obj, q.proj, It(('done',), it.ops))
            res = []
            for o in ex.run_ops(st, it.ops, src[1], src[2]):
                if o[0] == 'skip':
                    raise Unsupported('filtered iterator in a for loop')
                res.append((o[1], Adt(T_, 1, [o[2]])))
            return res
        if src[0] == 'flatdrop' and not it.ops:
            S, k = src[1], src[2]
            n = ex.group_len(S, k)
            if not ex.implied(st, eq(n, bvc(64, 1))):
                raise Unsupported('next on an iterator that may have nothing at this step')
            ex.write(st, q.obj, q.proj, It(('flatdrop', S, bvadd(k, bvc(64, 1)))))
            g = S.segs[0]
            x = vsubst(g[3], {g[2]: k})
            return Adt(T_, 1, [x if g[0] == 'lam' else seq_at(x, bvc(64, 0))])
        if src[0] == 'repeat':
            if src[1] is None:
                raise Unsupported('unbounded repeat')
            if is_c(src[1]):
                if src[1].data == 0:
                    return Adt(T_, 0, [])
                ex.write(st, q.obj, q.proj, It(('repeat', bvc(64, src[1].data - 1)), it.ops))
                return [(o[1], Adt(T_, 1, [o[2]])) for o in ex.run_ops(st, it.ops, UNIT, bvc(64, 0))]
        else:
            raise Unsupported('next on %s' % (src[0],))
    if isinstance(src, Seq) and (not src.segs or src.segs[0][0] == 'lit' and not any(o[0] in ('enumerate', 'zipwith') for o in it.ops)):
        if not src.segs:
            return Adt(T_, 0, [])
        g = src.segs[0]
        v = g[1][0]
        rest = Seq((('lit', g[1][1:]),) + src.segs[1:], src.ety)
        ex.write(st, q.obj, q.proj, It(rest, it.ops))
        res = []
        for o in ex.run_ops(st, it.ops, v, bvc(64, 0)):
            if o[0] == 'skip':
                raise Unsupported('filtered iterator in a for loop')
            res.append((o[1], Adt(T_, 1, [o[2]])))
        return res
    if isinstance(src, Seq) and src.segs[0][0] == 'flat':
        raise NeedDrop(q.obj, q.proj)
    # symbolic length, or positional stages: the enclosing loop is summarised
    loops = ex.cfg(info.frame.fn) if info.frame is not None else {}
    best = None
    for h, body in loops.items():
        if info.bb in body and (best is None or len(body) < len(loops[best])):
            best = h
    if best is None:
        s = ex.purify(it, st) if it.ops else src
        n = seq_len(s)
        some = not_(eq(n, bvc(64, 0)))
        outs = []
        if ex.feasible(st, some):
            s1 = st.copy().add(some)
            v = seq_at(s, bvc(64, 0))
            ex.write(s1, q.obj, q.proj, It(seq_slice(s, bvc(64, 1), n)))
            outs.append((s1, Adt(T_, 1, [v])))
        if ex.feasible(st, not_(some)):
            s2 = st.copy().add(not_(some))
            ex.write(s2, q.obj, q.proj, It(Seq([])))
            outs.append((s2, Adt(T_, 0, [])))
        return outs
    raise SymLoop(info.frame, best, (q.obj, q.proj), it)


def flatten_chain(ex, it, st):
    if isinstance(it.src, V) or it.src[0] != 'chain':
        return it
    return It(ex.purify(it, st))


@iter_op('last')
def _(ex, st, a, info):
    it = as_iter(ex, a[0], st)
    s = ex.purify(it, st)
    n = seq_len(s)
    some = not_(eq(n, bvc(64, 0)))
    if not s.segs:
        return Adt(info.ty, 0, [])
    return opt(info.ty, some, seq_at(s, bvsub(n, bvc(64, 1))))


@iter_op('nth')
def _(ex, st, a, info):
    q = root_ref(ex, a[0], st)
    it = as_iter(ex, a[0], st)
    s = ex.purify(it, st)
    n = seq_len(s)
    if q is not None and is_c(a[1]) and is_c(n):
        ex.write(st, q.obj, q.proj, It(seq_slice(s, bvc(64, min(a[1].data + 1, n.data)), n)))
    if not s.segs:
        return Adt(info.ty, 0, [])
    return opt(info.ty, ult(a[1], n), seq_at(s, a[1]))


# vectors ------------------------------------------------------------
@pattern(r'std::vec::Vec::<T(?:, A)?>::(new|with_capacity)|<std::vec::Vec<T> as std::default::Default>::default')
def _(ex, st, a, info, m):
    return Seq([], elem_type(info.ty))


@model('std::vec::from_elem')
def _(ex, st, a, info):
    n = a[1]
    ety = elem_type(info.ty)
    if is_c(n):
        return Seq([('lit', [a[0]] * n.data)], ety)
    return Seq([('lam', n, fresh('i', 64), a[0])], ety)


def vec_upd(ex, v, st, f):
    q = root_ref(ex, v, st)
    cur = ex.read(st, q.obj, q.proj)
    s = as_seq(cur)
    ex.write(st, q.obj, q.proj, f(s))


@pattern(r'std::vec::Vec::<T, A>::push|nonempty::NonEmpty::<T>::push')
def _(ex, st, a, info, m):
    vec_upd(ex, a[0], st, lambda s: seq_concat(s, Seq([('lit', [a[1]])], s.ety)))
    return UNIT


@pattern(r'std::vec::Vec::<T, A>::(extend_from_slice|append)|<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend')
def _(ex, st, a, info, m):
    src = ex.resolve(a[1], st)
    it = as_iter(ex, ex.into_iter(src, st), st)
    q = root_ref(ex, a[0], st)

    def body(s, v):
        if m.group(1) != None or isinstance(v, RefV):
            v = ex.deref(v, s) if isinstance(v, (Ref, RefV)) else v
        cur = as_seq(ex.read(s, q.obj, q.proj))
        ex.write(s, q.obj, q.proj, seq_concat(cur, Seq([('lit', [v])], cur.ety)))
        return [('back', s)]
    if isinstance(it.src, Seq) and not it.ops:
        cur = as_seq(ex.read(st, q.obj, q.proj))
        add = it.src
        if m.group(1) is not None or is_byteish(add):
            add = seq_map(add, lambda x: ex.deref(x, st) if isinstance(x, (Ref, RefV)) else x)
        ex.write(st, q.obj, q.proj, seq_concat(cur, add))
        if m.group(1) == 'append':
            r = root_ref(ex, a[1], st)
            ex.write(st, r.obj, r.proj, Seq([], cur.ety))
        return UNIT
    _, after = ex.consume(it, st, body)
    return [(after, UNIT)]


def is_byteish(s):
    return True


@pattern(r'std::vec::Vec::<T, A>::(pop|clear|truncate|reserve|shrink_to_fit|insert|remove|swap_remove|reverse|drain|as_slice|as_mut_slice|capacity|into_boxed_slice|resize)')
def _(ex, st, a, info, m):
    op = m.group(1)
    if op in ('reserve', 'shrink_to_fit'):
        return UNIT
    if op in ('as_slice', 'as_mut_slice', 'into_boxed_slice'):
        return a[0]
    q = root_ref(ex, a[0], st)
    s = as_seq(ex.read(st, q.obj, q.proj))
    n = seq_len(s)
    if op == 'clear':
        ex.write(st, q.obj, q.proj, Seq([], s.ety))
        return UNIT
    if op == 'truncate' and is_c(a[1]) and is_c(n):
        ex.write(st, q.obj, q.proj, seq_slice(s, bvc(64, 0), bvc(64, min(a[1].data, n.data))))
        return UNIT
    if op == 'pop':
        if is_c(n):
            if n.data == 0:
                return Adt(info.ty, 0, [])
            ex.write(st, q.obj, q.proj, seq_slice(s, bvc(64, 0), bvc(64, n.data - 1)))
            return Adt(info.ty, 1, [seq_at(s, bvc(64, n.data - 1))])
        if s.segs and s.segs[-1][0] == 'lit':
            g = s.segs[-1]
            ex.write(st, q.obj, q.proj, Seq(s.segs[:-1] + (('lit', g[1][:-1]),), s.ety))
            return Adt(info.ty, 1, [g[1][-1]])
    if op == 'insert' and is_c(a[1]):
        ex.write(st, q.obj, q.proj, seq_concat(seq_concat(seq_slice(s, bvc(64, 0), a[1]), Seq([('lit', [a[2]])], s.ety)), seq_slice(s, a[1], n)))
        return UNIT
    if op == 'resize' and is_c(a[1]) and is_c(n):
        if a[1].data >= n.data:
            ex.write(st, q.obj, q.proj, seq_concat(s, Seq([('lit', [a[2]] * (a[1].data - n.data))], s.ety)))
        else:
            ex.write(st, q.obj, q.proj, seq_slice(s, bvc(64, 0), a[1]))
        return UNIT
    return NotImplemented


@pattern(r'(?:core::slice::<impl \[T\]>|std::vec::Vec::<T, A>|nonempty::NonEmpty::<T>|core::str::<impl str>)::(len|is_empty)')
def _(ex, st, a, info, m):
    n = seq_len(seqv(ex, a[0], st))
    return n if m.group(1) == 'len' else eq(n, bvc(64, 0))


@pattern(r'<(?:std::vec::Vec<T, A>|std::boxed::Box<T, A>|std::string::String) as std::ops::(?:Deref|DerefMut)>::\w+|<(?:std::vec::Vec<T, A>|std::vec::Vec<T>|\[T\]|\[T; N\]|std::array::<impl .*) as std::(?:convert::As(?:Ref|Mut)|borrow::Borrow(?:Mut)?)<.*>>::\w+|.*std::array::<impl std::(?:convert::As(?:Ref|Mut)|borrow::Borrow(?:Mut)?)<\[T\]> for \[T; N\]>::\w+|core::str::<impl str>::as_bytes|(?:std|core)::array::<impl \[T; N\]>::as_slice|core::slice::<impl \[T\]>::as_ref|<&T as std::convert::AsRef<U>>::as_ref')
def _(ex, st, a, info, m):
    v = ex.resolve(a[0], st)
    if isinstance(v, Ref):
        x = ex.resolve(ex.read(st, v.obj, v.proj), st)
        if isinstance(x, (Ref, RefV)) and 'Deref' not in info.name:
            return x
    return v


@pattern(r'core::slice::<impl \[T\]>::(to_vec|into_vec)|std::slice::<impl \[T\]>::(to_vec|into_vec)|(?:alloc|std)::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned|<std::vec::Vec<T> as std::convert::From<.*>>::from|<std::boxed::Box<\[T\]> as std::convert::From<.*>>::from')
def _(ex, st, a, info, m):
    return seqv(ex, a[0], st)


@pattern(r'<(?:std::vec::Vec<T, A>|nonempty::NonEmpty<T>|std::boxed::Box<T, A>) as std::clone::Clone>::clone|<\[T; N\] as std::clone::Clone>::clone|.*<impl std::clone::Clone for \[T; N\]>::clone')
def _(ex, st, a, info, m):
    return D(ex, a[0], st)


def range_of(ex, v, st, n):
    v = D(ex, v, st)
    p = adt_name(v.ty)
    z = bvc(64, 0)
    one = bvc(64, 1)
    if p == 'std::ops::Range':
        return project(v, 0, ty('usize')), project(v, 1, ty('usize'))
    if p == 'std::ops::RangeFrom':
        return project(v, 0, ty('usize')), n
    if p == 'std::ops::RangeTo':
        return z, project(v, 0, ty('usize'))
    if p == 'std::ops::RangeFull':
        return z, n
    if p == 'std::ops::RangeInclusive':
        return project(v, 0, ty('usize')), bvadd(project(v, 1, ty('usize')), one)
    if p == 'std::ops::RangeToInclusive':
        return z, bvadd(project(v, 0, ty('usize')), one)
    raise Unsupported('range %s' % p)


@pattern(r'.*<impl std::ops::Index(?:Mut)?<I> for \[T(?:; N)?\]>::index(?:_mut)?|<std::vec::Vec<T, A> as std::ops::Index(?:Mut)?<I>>::index(?:_mut)?|nonempty::<impl std::ops::Index.*>::index(?:_mut)?|<nonempty::NonEmpty<T> as std::ops::Index(?:Mut)?<usize>>::index(?:_mut)?|<\[T(?:; N)?\] as std::ops::Index(?:Mut)?<I>>::index(?:_mut)?|<str as std::ops::Index<I>>::index')
def _(ex, st, a, info, m):
    s = seqv(ex, a[0], st)
    n = seq_len(s)
    q = root_ref(ex, a[0], st)
    i = ex.resolve(a[1], st)
    if isinstance(i, T):
        if not need(ex, st, ult(i, n), 'index out of bounds', info):
            return []
        if q is not None:
            return Ref(q.obj, q.proj + (('x', i),))
        return RefV(seq_at(s, i))
    lo, hi = range_of(ex, i, st, n)
    if not need(ex, st, and_(ule(lo, hi), ule(hi, n)), 'range out of bounds', info):
        return []
    if q is not None and not (info.argtys[0] is not None and TY[info.argtys[0]]['k'] == 'ref' and not TY[info.argtys[0]]['m']):
        return Ref(q.obj, q.proj + (('s', lo, hi),))
    return RefV(seq_slice(s, lo, hi))


@pattern(r'core::slice::<impl \[T\]>::(get|get_mut|first|last|first_mut|last_mut)|nonempty::NonEmpty::<T>::(get|get_mut|first|last)')
def _(ex, st, a, info, m):
    op = m.group(1) or m.group(2)
    q = root_ref(ex, a[0], st)
    s = seqv(ex, a[0], st)
    n = seq_len(s)
    if m.group(2) in ('first', 'last'):
        return RefV(seq_at(s, bvc(64, 0) if op == 'first' else bvsub(n, bvc(64, 1))))
    if op.startswith('first'):
        i = bvc(64, 0)
    elif op.startswith('last'):
        i = bvsub(n, bvc(64, 1))
    else:
        i = ex.resolve(a[1], st)
    if isinstance(i, T):
        if op.startswith(('first', 'last')):
            c = not_(eq(n, bvc(64, 0)))
        else:
            c = ult(i, n)
        if not s.segs:
            return Adt(info.ty, 0, [])
        if op.endswith('_mut') and q is not None:
            val = Ref(q.obj, q.proj + (('x', i),))
        else:
            val = RefV(seq_at(s, i))
        outs = []
        if ex.feasible(st, c):
            outs.append((st.copy().add(c), Adt(info.ty, 1, [val])))
        if ex.feasible(st, not_(c)):
            outs.append((st.copy().add(not_(c)), Adt(info.ty, 0, [])))
        return outs
    lo, hi = range_of(ex, i, st, n)
    c = and_(ule(lo, hi), ule(hi, n))
    outs = []
    if ex.feasible(st, c):
        s2 = st.copy().add(c)
        outs.append((s2, Adt(info.ty, 1, [RefV(seq_slice(s, lo, hi)) if op == 'get' or q is None else Ref(q.obj, q.proj + (('s', lo, hi),))])))
    if ex.feasible(st, not_(c)):
        outs.append((st.copy().add(not_(c)), Adt(info.ty, 0, [])))
    return outs


@pattern(r'core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice|fill|swap|reverse|split_at|split_at_mut|split_first|contains|starts_with|concat|chunks|chunks_exact|windows|iter_chunks|as_ptr|sort|sort_by|sort_by_key)')
def _(ex, st, a, info, m):
    op = m.group(1)
    q = root_ref(ex, a[0], st)
    s = seqv(ex, a[0], st)
    n = seq_len(s)
    if op in ('copy_from_slice', 'clone_from_slice'):
        src = seqv(ex, a[1], st)
        if not need(ex, st, eq(n, seq_len(src)), 'copy_from_slice length mismatch', info):
            return []
        ex.write(st, q.obj, q.proj, src)
        return UNIT
    if op == 'fill':
        if is_c(n):
            ex.write(st, q.obj, q.proj, Seq([('lit', [a[1]] * n.data)], s.ety))
        else:
            ex.write(st, q.obj, q.proj, Seq([('lam', n, fresh('i', 64), a[1])], s.ety))
        return UNIT
    if op == 'swap' and is_c(a[1]) and is_c(a[2]) and s.concrete() is not None:
        c = list(s.concrete())
        c[a[1].data], c[a[2].data] = c[a[2].data], c[a[1].data]
        ex.write(st, q.obj, q.proj, Seq([('lit', c)], s.ety))
        return UNIT
    if op == 'reverse' and s.concrete() is not None:
        ex.write(st, q.obj, q.proj, Seq([('lit', s.concrete()[::-1])], s.ety))
        return UNIT
    if op in ('split_at', 'split_at_mut'):
        if not need(ex, st, ule(a[1], n), 'split_at out of bounds', info):
            return []
        z = bvc(64, 0)
        if op == 'split_at_mut' and q is not None:
            return Tup([Ref(q.obj, q.proj + (('s', z, a[1]),)), Ref(q.obj, q.proj + (('s', a[1], n),))])
        return Tup([RefV(seq_slice(s, z, a[1])), RefV(seq_slice(s, a[1], n))])
    if op == 'contains' and s.concrete() is not None:
        x = D(ex, a[1], st)
        if isinstance(x, T):
            return or_(*[eq(x, y) for y in s.concrete()])
    if op in ('starts_with',) and s.concrete() is not None:
        p = seqv(ex, a[1], st).concrete()
        if p is not None:
            if len(p) > len(s.concrete()):
                return FALSE
            return and_(*[eq(x, y) for x, y in zip(p, s.concrete())])
    if op in ('chunks', 'chunks_exact') and is_c(a[1]) and s.concrete() is not None:
        c = s.concrete()
        k = a[1].data
        ch = [c[i:i + k] for i in range(0, len(c), k)]
        if op == 'chunks_exact':
            ch = [x for x in ch if len(x) == k]
        return It(Seq([('lit', [RefV(Seq([('lit', x)], s.ety)) for x in ch])]))
    return NotImplemented


@pattern(r'(?:std|core)::array::(?:<impl std::convert::TryFrom<(&\'a )?(?:mut )?\[T\]> for (&\'a )?(?:mut )?\[T; N\]>|.*)::try_from|std::vec::<impl std::convert::TryFrom<std::vec::Vec<T, A>> for \[T; N\]>::try_from')
def _(ex, st, a, info, m):
    rt = info.ty
    ok_t, err_t = TY[rt]['a']
    at = strip_ref(ok_t)
    if TY[at]['k'] != 'array' or not isinstance(TY[at]['n'], int):
        return NotImplemented
    n = TY[at]['n']
    s = seqv(ex, a[0], st)
    ln = seq_len(s)
    c = eq(ln, bvc(64, n))
    isref = TY[ok_t]['k'] == 'ref'
    outs = []
    if ex.feasible(st, c):
        s1 = st.copy().add(c)
        arr = s if s.concrete() is not None else Seq([('lit', [seq_at(s, bvc(64, i)) for i in range(n)])], s.ety)
        outs.append((s1, Adt(rt, 0, [RefV(arr) if isref else arr])))
    if ex.feasible(st, not_(c)):
        s2 = st.copy().add(not_(c))
        e = s if 'Vec' in info.name else mkval('TryFromSliceError', (), err_t)
        outs.append((s2, Adt(rt, 1, [e])))
    return outs


@pattern(r'(?:std|core)::array::<impl \[T; N\]>::map')
def _(ex, st, a, info, m):
    s = seqv(ex, a[0], st)
    outs = [(st, [])]
    for v in s.concrete():
        nx = []
        for s1, acc in outs:
            for s2, r in ex.merge_calls(s1.copy(), ex.call_value(a[1], [v], s1, elem_type(info.ty))):
                nx.append((s2, acc + [r]))
        outs = nx
    return [(s1, Seq([('lit', acc)], elem_type(info.ty))) for s1, acc in outs]


@pattern(r'std::array::from_fn')
def _(ex, st, a, info, m):
    n = TY[info.ty]['n']
    outs = [(st, [])]
    for i in range(n):
        nx = []
        for s1, acc in outs:
            for s2, r in ex.merge_calls(s1.copy(), ex.call_value(a[0], [bvc(64, i)], s1, elem_type(info.ty))):
                nx.append((s2, acc + [r]))
        outs = nx
    return [(s1, Seq([('lit', acc)], elem_type(info.ty))) for s1, acc in outs]


# nonempty -----------------------------------------------------------
@model('nonempty::NonEmpty::<T>::from_vec')
def _(ex, st, a, info):
    s = seqv(ex, a[0], st)
    c = not_(eq(seq_len(s), bvc(64, 0)))
    outs = []
    if ex.feasible(st, c):
        outs.append((st.copy().add(c), Adt(info.ty, 1, [s])))
    if ex.feasible(st, not_(c)):
        outs.append((st.copy().add(not_(c)), Adt(info.ty, 0, [])))
    return outs


@model('nonempty::NonEmpty::<T>::from_slice')
def _(ex, st, a, info):
    s = seqv(ex, a[0], st)
    return opt(info.ty, not_(eq(seq_len(s), bvc(64, 0))), s)


@pattern(r'nonempty::NonEmpty::<T>::(map|new|singleton)')
def _(ex, st, a, info, m):
    if m.group(1) != 'map':
        return Seq([('lit', [a[0]])], elem_type(info.ty))
    s = seqv(ex, a[0], st)
    seq, after = ex.collect(It(s, (('map', ex.alloc_clo(st, a[1]), item_ty(ex, a[1])),)), st, elem_type(info.ty))
    return [(after, seq)]


@pattern(r'nonempty::NonEmpty::<T>::(tail|split_first)')
def _(ex, st, a, info, m):
    s = seqv(ex, a[0], st)
    n = seq_len(s)
    t = RefV(seq_slice(s, bvc(64, 1), n))
    if m.group(1) == 'split_first':
        return Tup([RefV(seq_at(s, bvc(64, 0))), t])
    return t


@model('nonempty::NonEmpty::<T>::try_map')
def _(ex, st, a, info):
    s = seqv(ex, a[0], st)
    return try_collect(ex, st, It(s, (('map', ex.alloc_clo(st, a[1]), item_ty(ex, a[1])),)), info.ty, 0, 1)


# rand ---------------------------------------------------------------
@pattern(r'(?:rand|rand_core)::RngCore::(fill_bytes|next_u32|next_u64)|<.* as (?:rand|rand_core)::RngCore>::(fill_bytes|next_u32|next_u64)')
def _(ex, st, a, info, m):
    op = m.group(1) or m.group(2)
    if op == 'fill_bytes':
        q = root_ref(ex, a[1], st)
        s = as_seq(ex.read(st, q.obj, q.proj))
        n = seq_len(s)
        t = uf('rng_bytes', (rng_draw(ex, st, a[0], 'bytes', (n,)), n))
        if is_c(n):
            vals.KNOWN_LEN[t] = n.data
            ex.write(st, q.obj, q.proj, as_seq(Opq(t, ty('[u8; %d]' % n.data))))
        else:
            ex.write(st, q.obj, q.proj, Opq(t, ty('[u8]')))
        return UNIT
    t = rng_draw(ex, st, a[0], op)
    return uf('rng_' + op, (t,), sort_of(info.ty))


@pattern(r'<\[T\] as rand::(?:prelude|seq)::SliceRandom>::shuffle')
def _(ex, st, a, info, m):
    q = root_ref(ex, a[0], st)
    cur = ex.read(st, q.obj, q.proj)
    s = as_seq(cur)
    r = rng_draw(ex, st, a[1], 'shuffle', (seq_len(s),))
    t = mk('perm', (to_term(ex.deep(s, st)), r))
    ex.write(st, q.obj, q.proj, Opq(t, seq_ty(s.ety)))
    return UNIT


def perm_facts(r, n, i):
    """pi(r, n, i) < n for i < n"""
    return implies(ult(i, n), ult(mk('pi', (r, n, i), 64), n))


# lazy statics ---------------------------------------------------------
@pattern(r'lazy_static::lazy::Lazy::<T>::get|std::sync::(?:LazyLock|OnceLock)::<.*>::(?:force|get_or_init)')
def _(ex, st, a, info, m):
    return ex.call_value(a[-1], [], st, TY[info.ty]['e'] if TY[info.ty]['k'] == 'ref' else info.ty)


# zcash crates ---------------------------------------------------------
@pattern(r'<zcash_note_encryption::(EphemeralKeyBytes|OutgoingCipherKey|OutPlaintextBytes) as std::(?:convert::AsRef<.*>|clone::Clone|convert::From<.*>)>::(\w+)')
def _(ex, st, a, info, m):
    if m.group(2) == 'as_ref':
        v = D(ex, a[0], st)
        return RefV(as_seq(project(v, 0, ty('[u8; 32]'))))
    if m.group(2) == 'clone':
        return D(ex, a[0], st)
    if m.group(2) == 'from':
        return Adt(info.ty, 0, [a[0]])
    return NotImplemented


@pattern(r'<incrementalmerkletree::Level as std::convert::From<u8>>::from|<zip32::DiversifierIndex as std::convert::From<\[u8; 11\]>>::from|zip32::ChainCode::new')
def _(ex, st, a, info, m):
    return Adt(info.ty, 0, [a[0]])


@pattern(r'incrementalmerkletree::<impl std::convert::From<incrementalmerkletree::(Level|Position)> for (u8|usize|u64)>::from')
def _(ex, st, a, info, m):
    v = project(D(ex, a[0], st), 0, ty('u8' if m.group(1) == 'Level' else 'u64'))
    return int_cast(v, IW[m.group(2)], False)


@pattern(r'zip32::(?:DiversifierIndex|ChainCode)::as_bytes')
def _(ex, st, a, info, m):
    v = D(ex, a[0], st)
    n = 11 if 'Diversifier' in info.name else 32
    return RefV(as_seq(project(v, 0, ty('[u8; %d]' % n))))


@pattern(r'<zip32::(?:ChainCode|DiversifierIndex|ChildIndex|Scope|AccountId) as std::clone::Clone>::clone')
def _(ex, st, a, info, m):
    return D(ex, a[0], st)


@model('<zip32::ChainCode as subtle::ConstantTimeEq>::ct_eq')
def _(ex, st, a, info):
    x, y = [as_seq(project(D(ex, v, st), 0, ty('[u8; 32]'))) for v in a]
    return seq_eq(ex, st, x, y)


def zip32_child(tyid, idx):
    return Adt(tyid, 0, [idx])


@model('zip32::ChildIndex::hardened')
def _(ex, st, a, info):
    if not need(ex, st, ult(a[0], bvc(32, 1 << 31)), 'ChildIndex::hardened argument', info):
        return []
    return Adt(info.ty, 0, [bvor(a[0], bvc(32, 1 << 31))])


@model('zip32::ChildIndex::index')
def _(ex, st, a, info):
    return project(D(ex, a[0], st), 0, ty('u32'))


@model('zip32::ChildIndex::from_index')
def _(ex, st, a, info):
    return opt(info.ty, not_(ult(a[0], bvc(32, 1 << 31))), Adt(opt_inner(info.ty), 0, [a[0]]))


@pattern(r'<zip32::ChildIndex as (?:std::cmp::PartialEq|subtle::ConstantTimeEq)>::(eq|ct_eq)')
def _(ex, st, a, info, m):
    x, y = [project(D(ex, v, st), 0, ty('u32')) for v in a]
    return eq(x, y)


@model('incrementalmerkletree::MerklePath::<H, DEPTH>::position')
def _(ex, st, a, info):
    return project(D(ex, a[0], st), 1, info.ty)


@model('incrementalmerkletree::MerklePath::<H, DEPTH>::path_elems')
def _(ex, st, a, info):
    return RefV(D(ex, project(D(ex, a[0], st), 0, pseudo('Vec<H>', k='slice', e=elem_type(strip_ref(info.ty)))), st))


@pattern(r'halo2_proofs::circuit::(?:value::)?Value::<V>::(known|unknown)')
def _(ex, st, a, info, m):
    if m.group(1) == 'known':
        return Adt(info.ty, 0, [Adt(None, 1, [a[0]])])
    return Adt(info.ty, 0, [Adt(None, 0, [])])


# io -------------------------------------------------------------------
@model('std::io::Write::write_all')
def _(ex, st, a, info):
    q = root_ref(ex, a[0], st)
    w = D(ex, a[0], st)
    t = [to_term(ex.deep(w, st)), to_term(seqv(ex, a[1], st))]
    if q is not None and isinstance(w, Opq):
        ex.write(st, q.obj, q.proj, Opq(uf('written', t), w.ty))
    return mkval('write_result', t, info.ty)


@model('std::io::Read::read_exact')
def _(ex, st, a, info):
    q = root_ref(ex, a[0], st)
    w = D(ex, a[0], st)
    b = root_ref(ex, a[1], st)
    s = as_seq(ex.read(st, b.obj, b.proj))
    n = seq_len(s)
    wt = to_term(ex.deep(w, st))
    t = uf('read_bytes', (wt, n))
    if is_c(n):
        vals.KNOWN_LEN[t] = n.data
    ok = uf('read_ok', (wt, n), 'B')
    old = s
    new = as_seq(Opq(t, ty('[u8; %d]' % n.data)))
    ex.write(st, b.obj, b.proj, new)
    if q is not None and isinstance(w, Opq):
        ex.write(st, q.obj, q.proj, Opq(uf('read_rest', (wt, n)), w.ty))
    et = TY[info.ty]['a'][1]
    return vite(ok, Adt(info.ty, 0, [UNIT]), Adt(info.ty, 1, [mkval('read_err', (wt, n), et)]))


# tracing: no observable behaviour ---------------------------------------
@pattern(r'tracing::.*|<tracing::.*|core::fmt::.*|std::fmt::.*|<std::fmt::.*|tracing_core::.*|<tracing_core::.*')
def _(ex, st, a, info, m):
    if info.ty is not None and sort_of(info.ty) == 'B':
        return FALSE
    if 'le' == info.name.rsplit('::', 1)[-1]:
        return FALSE
    return mkval('fmt', (), info.ty, info.name)


# generic traits -------------------------------------------------------
@model('std::clone::Clone::clone')
def _(ex, st, a, info):
    return ex.deref(a[0], st)


@pattern(r'<.* as std::clone::Clone>::clone')
def _(ex, st, a, info, m):
    i = info.callee.get('i')
    if i is not None and 'b' in ex.fns[i] and ex.fns[i]['local']:
        return NotImplemented
    return ex.deref(a[0], st)


@pattern(r'(?:std|core)::mem::(swap|replace|take|drop|forget)|std::mem::drop')
def _(ex, st, a, info, m):
    op = m.group(1)
    if op == 'replace':
        q = root_ref(ex, a[0], st)
        old = ex.read(st, q.obj, q.proj)
        ex.write(st, q.obj, q.proj, a[1])
        return old
    if op == 'swap':
        p, q = root_ref(ex, a[0], st), root_ref(ex, a[1], st)
        x, y = ex.read(st, p.obj, p.proj), ex.read(st, q.obj, q.proj)
        ex.write(st, p.obj, p.proj, y)
        ex.write(st, q.obj, q.proj, x)
        return UNIT
    if op == 'take':
        q = root_ref(ex, a[0], st)
        old = ex.read(st, q.obj, q.proj)
        t = info.ty
        if sort_of(t) == 'B':
            ex.write(st, q.obj, q.proj, FALSE)
        elif sort_of(t) != 'U':
            ex.write(st, q.obj, q.proj, bvc(sort_of(t), 0))
        elif is_seq_type(t):
            ex.write(st, q.obj, q.proj, Seq([], elem_type(t)))
        elif TY[t]['k'] == 'adt' and TY[t]['p'] == 'std::option::Option':
            ex.write(st, q.obj, q.proj, Adt(t, 0, []))
        else:
            return NotImplemented
        return old
    return UNIT


@pattern(r'(?:std::intrinsics|core::intrinsics|std::hint|core::hint)::(\w+)')
def _(ex, st, a, info, m):
    op = m.group(1)
    if op in ('black_box', 'must_use'):
        return a[0]
    if op in ('likely', 'unlikely'):
        return a[0]
    if op in ('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid'):
        return UNIT
    return NotImplemented


@pattern(r'std::boxed::Box::<T>::new_uninit')
def _(ex, st, a, info, m):
    return Ref(ex.alloc(st, UNINIT))


@pattern(r'std::boxed::Box::<T>::new|std::boxed::box_new|(?:std|alloc)::boxed::box_assume_init_into_vec_unsafe|std::boxed::Box::<std::mem::MaybeUninit<T>>::write')
def _(ex, st, a, info, m):
    if info.name.endswith('into_vec_unsafe') and isinstance(a[0], Ref):
        return ex.read(st, a[0].obj, a[0].proj)
    return a[0] if len(a) == 1 else NotImplemented


@pattern(r'<.* as std::default::Default>::default|std::default::Default::default')
def _(ex, st, a, info, m):
    t = info.ty
    if t is None:
        return NotImplemented
    k = TY[t]['k']
    if k == 'array' and sort_of(TY[t]['e']) not in ('U', 'B'):
        return Seq([('lit', [bvc(sort_of(TY[t]['e']), 0)] * TY[t]['n'])], TY[t]['e'])
    return NotImplemented


@pattern(r'(?:std|core)::array::<impl std::default::Default for \[T; \d+\]>::default')
def _(ex, st, a, info, m):
    t = info.ty
    if sort_of(TY[t]['e']) not in ('U', 'B'):
        return Seq([('lit', [bvc(sort_of(TY[t]['e']), 0)] * TY[t]['n'])], TY[t]['e'])
    return NotImplemented


# ------------------------------------------------------------------ ranges
def range_bounds(ex, v, st):
    """(lo, lo inclusive, hi, hi inclusive) of a std range; None bounds are absent."""
    v = D(ex, v, st)
    n = adt_name(v.ty)
    if isinstance(v, Opq):
        v = ex.expand(v, 0, st)
    k = n.split('::')[-1]
    if k == 'Range':
        return v.fs[0], True, v.fs[1], False
    if k == 'RangeInclusive':
        return v.fs[0], True, v.fs[1], True
    if k == 'RangeFrom':
        return v.fs[0], True, None, False
    if k == 'RangeTo':
        return None, True, v.fs[0], False
    if k == 'RangeToInclusive':
        return None, True, v.fs[0], True
    if k == 'RangeFull':
        return None, True, None, True
    raise Unsupported('range %s' % n)


@pattern(r'std::ops::Range\w*::<Idx>::contains|std::ops::RangeBounds::contains|<std::ops::Range\w*(?:<T>)? as std::ops::RangeBounds<T>>::contains')
def _(ex, st, a, info, m):
    v = D(ex, a[0], st)
    lo, li, hi, hinc = range_bounds(ex, a[0], st)
    x = D(ex, a[1], st)
    if not isinstance(x, T):
        return NotImplemented
    et = TY[v.ty]['a'][0]
    sg = TY[et]['k'] == 'int'
    lt, le = (slt, sle) if sg else (ult, ule)
    c = TRUE
    for b in (lo, hi):
        if b is not None and not isinstance(D(ex, b, st), T):
            return NotImplemented
    if lo is not None:
        c = and_(c, le(D(ex, lo, st), x))
    if hi is not None:
        c = and_(c, (le if hinc else lt)(x, D(ex, hi, st)))
    return c


# ------------------------------------------------------------------ RedPallas
# A signing key is a scalar, a verification key a point (the identity included, as reddsa accepts it).
def sk_scalar(t):
    if t.op == 'sk':
        return t.args[0]
    if t.op == 'ite':
        return ite(t.args[0], sk_scalar(t.args[1]), sk_scalar(t.args[2]))
    return uf('sk_scalar', (t,))


def mk_sk(x):
    return x.args[0] if x.op == 'sk_scalar' else uf('sk', (x,))


def vk_point(t):
    if t.op == 'vk':
        return t.args[0]
    if t.op == 'ite':
        return ite(t.args[0], vk_point(t.args[1]), vk_point(t.args[2]))
    return uf('vk_pt', (t,))


def mk_vk(p):
    return p.args[0] if p.op == 'vk_pt' else uf('vk', (p,))


def sigtype(tyid):
    s = TY[strip_ref(tyid)]['s']
    if 'Binding' in s:
        return 'Binding'
    if 'SpendAuth' in s:
        return 'SpendAuth'
    return s


def basepoint(kind):
    """Generators of the two RedPallas instantiations (Zcash protocol specification 5.4.7)."""
    if kind == 'Binding':
        return uf('h2c', (str_term('z.cash:Orchard-cv'), to_term(bytes_seq(b'r'))))
    if kind == 'SpendAuth':
        return uf('h2c', (str_term('z.cash:Orchard'), to_term(bytes_seq(b'G'))))
    return uf('basepoint', (), 'U', kind)


@pattern(r'reddsa::verification_key::<impl std::convert::From<&?(?:\'\w+ )?reddsa::VerificationKey<T>> for \[u8; 32\]>::from')
def _(ex, st, a, info, m):
    return g_repr(ex, st, vk_point(tt(ex, a[0], st)))


@pattern(r'<reddsa::VerificationKeyBytes<T> as std::convert::From<reddsa::VerificationKey<T>>>::from')
def _(ex, st, a, info, m):
    return mkval('vkb', [to_term(g_repr(ex, st, vk_point(tt(ex, a[0], st))))], info.ty)


@pattern(r'<reddsa::VerificationKey<T> as std::convert::TryFrom<\[u8; 32\]>>::try_from')
def _(ex, st, a, info, m):
    p, c = g_from_repr(tt(ex, a[0], st))
    ok_t, err_t = TY[info.ty]['a'][0], TY[info.ty]['a'][1]
    return vite(c, Adt(info.ty, 0, [Opq(mk_vk(p), ok_t)]), Adt(info.ty, 1, [mkval('reddsa_error', [], err_t)]))


@pattern(r'<reddsa::SigningKey<T> as std::convert::TryFrom<\[u8; 32\]>>::try_from')
def _(ex, st, a, info, m):
    x, c = f_from_repr(tt(ex, a[0], st), 'Fq')
    ok_t, err_t = TY[info.ty]['a'][0], TY[info.ty]['a'][1]
    return vite(c, Adt(info.ty, 0, [Opq(mk_sk(x), ok_t)]), Adt(info.ty, 1, [mkval('reddsa_error', [], err_t)]))


@pattern(r'reddsa::signing_key::<impl std::convert::From<&?(?:\'\w+ )?reddsa::SigningKey<T>> for \[u8; 32\]>::from')
def _(ex, st, a, info, m):
    return f_repr(ex, st, sk_scalar(tt(ex, a[0], st)), 'Fq')


@pattern(r'reddsa::signing_key::<impl std::convert::From<&?(?:\'\w+ )?reddsa::SigningKey<T>> for reddsa::VerificationKey<T>>::from')
def _(ex, st, a, info, m):
    x = sk_scalar(tt(ex, a[0], st))
    return Opq(mk_vk(g_mul(x, basepoint(sigtype(info.ty)))), info.ty)


@pattern(r'reddsa::(SigningKey|VerificationKey)::<T>::randomize')
def _(ex, st, a, info, m):
    k, r = tt(ex, a[0], st), tt(ex, a[1], st)
    if m.group(1) == 'SigningKey':
        return Opq(mk_sk(poly_add('Fq', sk_scalar(k), r)), info.ty)
    return Opq(mk_vk(g_add(vk_point(k), g_mul(r, basepoint(sigtype(info.ty))))), info.ty)


@pattern(r'reddsa::SigningKey::<T>::sign')
def _(ex, st, a, info, m):
    k = tt(ex, a[0], st)
    msg = tt(ex, a[2], st)
    r = rng_draw(ex, st, a[1], 'sign')
    return mkval('reddsa_sign', [k, r, msg], info.ty)


@pattern(r'reddsa::VerificationKey::<T>::verify')
def _(ex, st, a, info, m):
    v = uf('reddsa_verifies', (vk_point(tt(ex, a[0], st)), tt(ex, a[1], st), tt(ex, a[2], st)), 'B')
    return vite(v, Adt(info.ty, 0, [UNIT]), Adt(info.ty, 1, [mkval('reddsa_error', [], TY[info.ty]['a'][1])]))


@pattern(r'reddsa::signature::<impl std::convert::From<&?(?:\'\w+ )?reddsa::Signature<T>> for \[u8; 64\]>::from')
def _(ex, st, a, info, m):
    t = tt(ex, a[0], st)
    r = t.args[0] if t.op == 'sig' else uf('sig_bytes', (t,))
    vals.KNOWN_LEN[r] = 64
    return as_seq(Opq(r, ty('[u8; 64]')))


@pattern(r'<reddsa::Signature<T> as std::convert::From<\[u8; 64\]>>::from')
def _(ex, st, a, info, m):
    t = tt(ex, a[0], st)
    return Opq(t.args[0] if t.op == 'sig_bytes' else uf('sig', (t,)), info.ty)


def str_term(s):
    return to_term(bytes_seq(s.encode()))


# ------------------------------------------------------------------ FF1 (a permutation of the strings of each length)
@pattern(r'fpe::ff1::FF1::<.*>::new')
def _(ex, st, a, info, m):
    ok_t = TY[info.ty]['a'][0]
    r = D(ex, a[1], st)
    k = tt(ex, a[0], st)
    if not (is_c(r) and r.data == 2):
        return NotImplemented
    return Adt(info.ty, 0, [Opq(uf('ff1', (k,)), ok_t)])


@model('fpe::ff1::BinaryNumeralString::from_bytes_le')
def _(ex, st, a, info):
    return Opq(uf('bns', (to_term(seqv(ex, a[0], st)),)), info.ty)


def unbns(t):
    return t.args[0] if t.op == 'bns' else uf('unbns', (t,))


@model('fpe::ff1::BinaryNumeralString::to_bytes_le')
def _(ex, st, a, info):
    return as_seq(from_term(unbns(tt(ex, a[0], st)), info.ty), ty('u8'))


def ff1(key, tweak, x, inverse):
    op, inv = ('ff1dec', 'ff1enc') if inverse else ('ff1enc', 'ff1dec')
    if x.op == inv and x.args[0] is key and x.args[1] is tweak:
        return x.args[2]
    t = uf(op, (key, tweak, x))
    n = conc_len(x)
    if n is not None:
        vals.KNOWN_LEN[t] = n
    return t


@pattern(r'fpe::ff1::FF1::<.*>::(encrypt|decrypt)')
def _(ex, st, a, info, m):
    k, tw, x = tt(ex, a[0], st), tt(ex, a[1], st), unbns(tt(ex, a[2], st))
    ok_t = TY[info.ty]['a'][0]
    t = ff1(k, tw, x, m.group(1) == 'decrypt')
    if conc_len(t) is None:
        return NotImplemented
    return Adt(info.ty, 0, [Opq(uf('bns', (t,)), ok_t)])


def fix_len(s, n):
    """The first n elements of a sequence, as a sequence of length n."""
    return s if s.concrete() is not None and len(s.concrete()) == n else Seq([('lit', [seq_at(s, bvc(64, i)) for i in range(n)])], s.ety)


def into(ex, st, x, dest):
    """x.into(): the identity on dest itself, little-endian bytes of an integer for a diversifier index, else uninterpreted."""
    x = D(ex, x, st)
    name = TY[dest]['s']
    if isinstance(x, (Adt, Opq)) and x.ty == dest:
        return x
    if isinstance(x, T) and isinstance(x.sort, int) and name == 'zip32::DiversifierIndex':
        return Adt(dest, 0, [bytes_le(zext(88, x))])
    return mkval('into', [to_term(ex.deep(x, st))], dest)


@model('std::convert::Into::into')
def _(ex, st, a, info):
    t = info.argtys[0]
    if t is not None and TY[t]['k'] not in ('param', 'alias') and not (TY[info.ty]['s'] == 'zip32::DiversifierIndex' and TY[t]['k'] == 'uint'):
        return NotImplemented
    return into(ex, st, a[0], info.ty)


# ------------------------------------------------------------------ batch verification, proofs
def msg_term(ex, v, st):
    return to_term(as_seq(ex.deep(ex.full_deref(v, st), st), ty('u8')))


@pattern(r'reddsa::batch::Item::<S, B>::from_(spendauth|binding)')
def _(ex, st, a, info, m):
    kind = 'SpendAuth' if m.group(1) == 'spendauth' else 'Binding'
    return mkval('batch_item', [tt(ex, a[0], st), tt(ex, a[1], st), tt(ex, a[2], st)], info.ty, kind)


@pattern(r'reddsa::batch::Verifier::<S, B>::new|<reddsa::batch::Verifier<S, B> as std::default::Default>::default')
def _(ex, st, a, info, m):
    return Seq([], None)


@pattern(r'reddsa::batch::Verifier::<S, B>::queue')
def _(ex, st, a, info, m):
    x = a[1]
    at = info.argtys[1]
    vec_upd(ex, a[0], st, lambda s: seq_concat(s, Seq([('lit', [x])], s.ety)))
    return UNIT


@pattern(r'reddsa::batch::Verifier::<S, B>::verify')
def _(ex, st, a, info, m):
    s = to_term(as_seq(D(ex, a[0], st)))
    r = rng_draw(ex, st, a[1], 'batch')
    return vite(uf('reddsa_batch_ok', (s, r), 'B'), Adt(info.ty, 0, [UNIT]), Adt(info.ty, 1, [mkval('reddsa_error', [], TY[info.ty]['a'][1])]))


def deepterm(ex, v, st):
    return to_term(ex.deep(ex.full_deref(v, st), st))


@pattern(r'halo2_proofs::plonk::BatchVerifier::<C>::new|<halo2_proofs::plonk::BatchVerifier<C> as std::default::Default>::default')
def _(ex, st, a, info, m):
    return mkval('halo2_batch_new', [], info.ty)


@pattern(r'halo2_proofs::plonk::BatchVerifier::<C>::add_proof')
def _(ex, st, a, info, m):
    q = root_ref(ex, a[0], st)
    cur = ex.read(st, q.obj, q.proj)
    ex.write(st, q.obj, q.proj, Opq(uf('halo2_batch_add', (to_term(cur), deepterm(ex, a[1], st), deepterm(ex, a[2], st))), tyof_(cur)))
    return UNIT


def tyof_(v):
    return v.ty if isinstance(v, (Opq, Adt)) else None


@pattern(r'halo2_proofs::plonk::BatchVerifier::<C>::finalize')
def _(ex, st, a, info, m):
    return uf('halo2_batch_ok', tuple(deepterm(ex, x, st) for x in a), 'B')


@pattern(r"halo2_proofs::plonk::SingleVerifier::<'params, C>::new")
def _(ex, st, a, info, m):
    return mkval('halo2_single', [deepterm(ex, a[0], st)], info.ty)


@pattern(r'halo2_proofs::transcript::Blake2bRead::<R, C, E>::init')
def _(ex, st, a, info, m):
    return mkval('halo2_read', [msg_term(ex, a[0], st)], info.ty)


@pattern(r'halo2_proofs::transcript::Blake2bWrite::<W, C, E>::init')
def _(ex, st, a, info, m):
    return mkval('halo2_write', [msg_term(ex, a[0], st)], info.ty)


@pattern(r'halo2_proofs::transcript::Blake2bWrite::<W, C, E>::finalize')
def _(ex, st, a, info, m):
    return as_seq(Opq(uf('halo2_transcript', (deepterm(ex, a[0], st),)), info.ty))


def same_instances(ex, v, st):
    """The instance columns of every circuit, as nested sequences."""
    return deepterm(ex, v, st)


@pattern(r'halo2_proofs::plonk::verify_proof')
def _(ex, st, a, info, m):
    ts = [deepterm(ex, a[i], st) for i in (0, 1, 2)] + [same_instances(ex, a[3], st), deepterm(ex, a[4], st)]
    q = root_ref(ex, a[4], st)
    if q is not None:
        ex.write(st, q.obj, q.proj, mkval('halo2_read_after', ts, None))
    out = uf('halo2_verify', tuple(ts))
    return Opq(out, info.ty)


@pattern(r'halo2_proofs::plonk::create_proof')
def _(ex, st, a, info, m):
    ts = [deepterm(ex, a[i], st) for i in (0, 1, 2)] + [same_instances(ex, a[3], st)]
    r = rng_draw(ex, st, a[4], 'proof')
    ts += [r, deepterm(ex, a[5], st)]
    q = root_ref(ex, a[5], st)
    ex.write(st, q.obj, q.proj, Opq(uf('halo2_proved', tuple(ts)), None))
    return Opq(uf('halo2_prove', tuple(ts)), info.ty)


@pattern(r'halo2_proofs::plonk::keygen_(vk|pk)|halo2_proofs::poly::commitment::Params::<C>::new')
def _(ex, st, a, info, m):
    return mkval('halo2_keygen_' + (m.group(1) or 'params'), [deepterm(ex, x, st) for x in a], info.ty)


@pattern(r'<halo2_proofs::circuit::(?:value::)?Value<V> as std::default::Default>::default')
def _(ex, st, a, info, m):
    return Adt(info.ty, 0, [Adt(None, 0, [])])


# serde: a byte array as the caller's (de)serializer reads or writes it --------------
@pattern(r"serde::ser::impls::<impl serde::Serialize for \[T; 32\]>::serialize")
def _(ex, st, a, info, m):
    return mkval('ser_bytes', (to_term(as_seq(D(ex, a[0], st))), to_term(ex.deep(D(ex, a[1], st), st))), info.ty)


def de_parts(w):
    """(the deserializer yields 32 bytes, the bytes)"""
    t = uf('de_bytes', (w,))
    vals.KNOWN_LEN[t] = 32
    return uf('de_ok', (w,), 'B'), t


@pattern(r"serde::de::impls::<impl serde::Deserialize<'de> for \[T; 32\]>::deserialize")
def _(ex, st, a, info, m):
    w = to_term(ex.deep(D(ex, a[0], st), st))
    ok, t = de_parts(w)
    vt, et = TY[info.ty]['a']
    return vite(ok, Adt(info.ty, 0, [as_seq(Opq(t, vt))]), Adt(info.ty, 1, [mkval('de_err', (w,), et)]))


@model('serde::de::Error::custom')
def _(ex, st, a, info):
    return mkval('de_custom', (), info.ty)
