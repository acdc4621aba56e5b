"""Hash-consed terms, simplification, and translation to z3.

Sorts: 'B' (bool), an int w (bit vector of width w), 'U' (everything else).
"""
import os
import sys
sys.setrecursionlimit(100000)

_table = {}
_next = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'data', 'id', 'fv', 'h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, args=(), sort='U', data=None):
    args = tuple(args)
    key = (op, tuple(a.id for a in args), sort, data)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.data = op, args, sort, data
        t.id = _next[0]
        _next[0] += 1
        if op == 'var':
            t.fv = frozenset([t])
            t.h = 0
        else:
            f = frozenset()
            h = 0
            for a in args:
                if a.fv:
                    f = f | a.fv
                if a.h > h:
                    h = a.h
            t.fv = f
            t.h = h
        _table[key] = t
    return t


def show(t, depth=0):
    if depth > 9:
        return '…'
    if t.op == 'c':
        if t.sort == 'B':
            return 'true' if t.data else 'false'
        return '%d:u%s' % (t.data, t.sort)
    if t.op == 'var':
        return t.data
    d = ''
    if t.data is not None:
        d = '{%s}' % (str(t.data)[:80],)
    if not t.args:
        return t.op + d
    if len(t.args) > 24:
        return '%s%s(%s, …%d args…)' % (t.op, d, ', '.join(show(a, depth + 1) for a in t.args[:3]), len(t.args))
    return '%s%s(%s)' % (t.op, d, ', '.join(show(a, depth + 1) for a in t.args))


_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return mk('var', (), sort, '%s!%d' % (name, _fresh[0]))


def var(name, sort='U'):
    return mk('var', (), sort, name)


def bvar(level, sort):
    """Canonical bound variable of a lambda of the given height."""
    t = mk('bvar', (), sort, level)
    t.h = 0
    return t


def uf(name, args=(), sort='U', data=None):
    return mk(name, args, sort, data)


TRUE = mk('c', (), 'B', True)
FALSE = mk('c', (), 'B', False)


def boolc(b):
    return TRUE if b else FALSE


def bvc(w, v):
    return mk('c', (), w, v & ((1 << w) - 1))


def is_c(t):
    return t.op == 'c'


def sval(t):
    w = t.sort
    v = t.data
    return v - (1 << w) if v >> (w - 1) else v


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', sorted(out, key=lambda t: t.id), 'B')


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), a.sort)


INJECTIVE = set()


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort != b.sort:
        raise TypeError('eq sort mismatch %r %r' % (a, b))
    if is_c(a) and is_c(b):
        return boolc(a.data == b.data)
    if a.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
    # push equality with a constant through ite and zext
    if is_c(b) and not is_c(a):
        a, b = b, a
    if is_c(a) and b.op == 'ite':
        c, x, y = b.args
        if is_c(x) or is_c(y):
            return ite(c, eq(a, x), eq(a, y))
    if is_c(a) and b.op == 'zext':
        iw = b.args[0].sort
        if a.data >> iw:
            return FALSE
        return eq(bvc(iw, a.data), b.args[0])
    if a.op == 'zext' and b.op == 'zext' and a.args[0].sort == b.args[0].sort:
        return eq(a.args[0], b.args[0])
    if b.id < a.id:
        a, b = b, a
    return mk('eq', (a, b), 'B')


def _bin(op, f, comm=False):
    def g(a, b):
        assert a.sort == b.sort, (op, a, b)
        w = a.sort
        if is_c(a) and is_c(b):
            return bvc(w, f(a.data, b.data, w))
        if op == 'bvadd':
            if is_c(a):
                a, b = b, a
            if is_c(b) and b.data == 0:
                return a
            if is_c(b) and a.op == 'bvadd' and is_c(a.args[1]):
                return g(a.args[0], bvc(w, a.args[1].data + b.data))
            if b.op == 'bvsub' and b.args[1] is a:
                return b.args[0]
            if a.op == 'bvsub' and a.args[1] is b:
                return a.args[0]
        if op == 'bvsub':
            if is_c(b) and b.data == 0:
                return a
            if a is b:
                return bvc(w, 0)
            if is_c(b):
                return bvadd(a, bvc(w, -b.data))
            if a.op == 'bvadd':
                if a.args[0] is b:
                    return a.args[1]
                if a.args[1] is b:
                    return a.args[0]
        if op == 'bvmul':
            if is_c(a):
                a, b = b, a
            if is_c(b) and b.data == 0:
                return b
            if is_c(b) and b.data == 1:
                return a
        if op == 'bvand':
            if is_c(a):
                a, b = b, a
            if is_c(b) and b.data == 0:
                return b
            if is_c(b) and b.data == (1 << w) - 1:
                return a
            if a is b:
                return a
        if op == 'bvor':
            if is_c(a):
                a, b = b, a
            if is_c(b) and b.data == 0:
                return a
            if a is b:
                return a
        if op == 'bvxor':
            if is_c(a):
                a, b = b, a
            if is_c(b) and b.data == 0:
                return a
        if op in ('shl', 'lshr', 'ashr') and is_c(b) and b.data == 0:
            return a
        if comm and b.id < a.id and not is_c(b):
            a, b = b, a
        return mk(op, (a, b), w)
    return g


def _s(v, w):
    return v - (1 << w) if v >> (w - 1) else v


bvadd = _bin('bvadd', lambda a, b, w: a + b, True)
bvsub = _bin('bvsub', lambda a, b, w: a - b)
bvmul = _bin('bvmul', lambda a, b, w: a * b, True)
bvand = _bin('bvand', lambda a, b, w: a & b, True)
bvor = _bin('bvor', lambda a, b, w: a | b, True)
bvxor = _bin('bvxor', lambda a, b, w: a ^ b, True)
shl = _bin('shl', lambda a, b, w: (a << b) if b < w else 0)
lshr = _bin('lshr', lambda a, b, w: (a >> b) if b < w else 0)
ashr = _bin('ashr', lambda a, b, w: (_s(a, w) >> min(b, w)))
udiv = _bin('udiv', lambda a, b, w: a // b if b else (1 << w) - 1)
urem = _bin('urem', lambda a, b, w: a % b if b else a)


def _sdiv(a, b, w):
    a, b = _s(a, w), _s(b, w)
    if b == 0:
        return -1 if a >= 0 else 1
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _srem(a, b, w):
    a, b = _s(a, w), _s(b, w)
    if b == 0:
        return a
    r = abs(a) % abs(b)
    return -r if a < 0 else r


sdiv = _bin('sdiv', _sdiv)
srem = _bin('srem', _srem)


def neg(a):
    return bvsub(bvc(a.sort, 0), a)


def bvnot(a):
    return bvxor(a, bvc(a.sort, -1))


def _cmp(op, f):
    def g(a, b):
        assert a.sort == b.sort, (op, a, b)
        if is_c(a) and is_c(b):
            return boolc(f(a, b))
        if a is b:
            return boolc(op in ('ule', 'sle'))
        if op == 'ult' and is_c(b) and b.data == 0:
            return FALSE
        if op == 'ule' and is_c(a) and a.data == 0:
            return TRUE
        if op == 'ule' and is_c(b) and b.data == (1 << b.sort) - 1:
            return TRUE
        if a.op == 'zext' and b.op == 'zext' and a.args[0].sort == b.args[0].sort and op in ('ult', 'ule'):
            return g(a.args[0], b.args[0])
        return mk(op, (a, b), 'B')
    return g


ult = _cmp('ult', lambda a, b: a.data < b.data)
ule = _cmp('ule', lambda a, b: a.data <= b.data)
slt = _cmp('slt', lambda a, b: sval(a) < sval(b))
sle = _cmp('sle', lambda a, b: sval(a) <= sval(b))


def extract(hi, lo, a):
    if lo == 0 and hi == a.sort - 1:
        return a
    if is_c(a):
        return bvc(hi - lo + 1, a.data >> lo)
    if a.op == 'zext':
        iw = a.args[0].sort
        if hi < iw:
            return extract(hi, lo, a.args[0])
        if lo >= iw:
            return bvc(hi - lo + 1, 0)
        if lo == 0:
            return zext(hi + 1, a.args[0])
    if a.op == 'sext' and hi < a.args[0].sort:
        return extract(hi, lo, a.args[0])
    if a.op == 'extract':
        return extract(hi + a.data[1], lo + a.data[1], a.args[0])
    if a.op == 'concat':
        h, l = a.args
        if hi < l.sort:
            return extract(hi, lo, l)
        if lo >= l.sort:
            return extract(hi - l.sort, lo - l.sort, h)
    return mk('extract', (a,), hi - lo + 1, (hi, lo))


def concat(h, l):
    if is_c(h) and is_c(l):
        return bvc(h.sort + l.sort, (h.data << l.sort) | l.data)
    if h.op == 'extract' and l.op == 'extract' and h.args[0] is l.args[0] and h.data[1] == l.data[0] + 1:
        return extract(h.data[0], l.data[1], h.args[0])
    if is_c(h) and h.data == 0:
        return zext(h.sort + l.sort, l)
    return mk('concat', (h, l), h.sort + l.sort)


def zext(w, a):
    if a.sort == w:
        return a
    assert w > a.sort
    if is_c(a):
        return bvc(w, a.data)
    if a.op == 'zext':
        return zext(w, a.args[0])
    if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], zext(w, a.args[1]), zext(w, a.args[2]))
    return mk('zext', (a,), w)


def sext(w, a):
    if a.sort == w:
        return a
    if is_c(a):
        return bvc(w, sval(a))
    return mk('sext', (a,), w)


def bv_of_bool(b, w):
    return ite(b, bvc(w, 1), bvc(w, 0))


# ---------------------------------------------------------------- field and group normal forms
# A field element is a polynomial: mk('poly', atoms, 'U', (field, monos)) where monos is a
# tuple of (coef, (index...)) over the atom list.  A group element is a linear combination of
# atoms with polynomial coefficients: mk('lin', args, 'U', ('lin', n)) with args = coef0, atom0, ...
P_BASE = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
Q_SCALAR = 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001
MODULUS = {'Fp': P_BASE, 'Fq': Q_SCALAR}


def poly_parts(field, t):
    """dict: tuple(sorted atom ids) -> (coef, atoms)"""
    if t.op == 'poly' and t.data[0] == field:
        d = {}
        for coef, idxs in t.data[1]:
            atoms = tuple(t.args[i] for i in idxs)
            d[tuple(a.id for a in atoms)] = (coef, atoms)
        return d
    return {(t.id,): (1, (t,))}


def poly_build(field, d):
    m = MODULUS[field]
    d = {k: (c % m, a) for k, (c, a) in d.items() if c % m}
    if len(d) == 1:
        (k, (c, a)), = d.items()
        if c == 1 and len(a) == 1:
            return a[0]
    atoms = sorted({x for _, (c, a) in d.items() for x in a}, key=lambda t: t.id)
    pos = {a: i for i, a in enumerate(atoms)}
    monos = tuple(sorted((c, tuple(pos[x] for x in a)) for k, (c, a) in d.items()))
    return mk('poly', atoms, 'U', (field, monos))


def poly_const(field, v):
    return poly_build(field, {(): (v, ())})


def poly_add(field, a, b):
    d = dict(poly_parts(field, a))
    for k, (c, at) in poly_parts(field, b).items():
        d[k] = ((d[k][0] if k in d else 0) + c, at)
    return poly_build(field, d)


def poly_scale(field, a, s):
    return poly_build(field, {k: (c * s, at) for k, (c, at) in poly_parts(field, a).items()})


def poly_neg(field, a):
    return poly_scale(field, a, -1)


def poly_mul(field, a, b):
    d = {}
    for k1, (c1, a1) in poly_parts(field, a).items():
        for k2, (c2, a2) in poly_parts(field, b).items():
            at = tuple(sorted(a1 + a2, key=lambda t: t.id))
            k = tuple(x.id for x in at)
            d[k] = ((d[k][0] if k in d else 0) + c1 * c2, at)
    return poly_build(field, d)


def poly_is_const(field, t):
    if t.op == 'poly' and t.data[0] == field and not t.args:
        return t.data[1][0][0] if t.data[1] else 0
    return None


def lin_parts(t):
    if t.op == 'lin':
        return {t.args[i + 1]: t.args[i] for i in range(0, len(t.args), 2)}
    return {t: poly_const('Fq', 1)}


def lin_build(d):
    zero = poly_const('Fq', 0)
    d = {a: c for a, c in d.items() if c is not zero}
    one = poly_const('Fq', 1)
    if len(d) == 1:
        (a, c), = d.items()
        if c is one:
            return a
    args = []
    for a in sorted(d, key=lambda t: t.id):
        args += [d[a], a]
    return mk('lin', args, 'U', 'lin')


def g_zero():
    return lin_build({})


def g_add(a, b):
    d = dict(lin_parts(a))
    for at, c in lin_parts(b).items():
        d[at] = poly_add('Fq', d[at], c) if at in d else c
    return lin_build(d)


def g_mul(s, a):
    return lin_build({at: poly_mul('Fq', c, s) for at, c in lin_parts(a).items()})


def g_neg(a):
    return g_mul(poly_const('Fq', -1), a)


# ---------------------------------------------------------------- the rewriter's own record (vc/selfcheck.py)
TRACE = {} if os.environ.get('VC_TRACE') else None


def traced(name, f):
    if TRACE is None:
        return f

    def g(*args):
        r = f(*args)
        TRACE.setdefault((name,) + args, r)
        return r
    return g


for _n in ('not_', 'and_', 'ite', 'eq', 'bvadd', 'bvsub', 'bvmul', 'bvand', 'bvor', 'bvxor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem',
           'ult', 'ule', 'slt', 'sle', 'extract', 'concat', 'zext', 'sext', 'poly_add', 'poly_scale', 'poly_mul', 'g_add', 'g_mul'):
    globals()[_n] = traced(_n, globals()[_n])


# ---------------------------------------------------------------- substitution
_REBUILD = {}


def rebuild(t, args):
    f = _REBUILD.get(t.op)
    if f is not None:
        return f(t, args)
    return mk(t.op, args, t.sort, t.data)


def _rb2(f):
    return lambda t, a: f(a[0], a[1])


for _n, _f in dict(eq=eq, bvadd=bvadd, bvsub=bvsub, bvmul=bvmul, bvand=bvand, bvor=bvor, bvxor=bvxor, shl=shl, lshr=lshr,
                   ashr=ashr, udiv=udiv, urem=urem, sdiv=sdiv, srem=srem, ult=ult, ule=ule, slt=slt, sle=sle, concat=concat).items():
    _REBUILD[_n] = _rb2(_f)
_REBUILD['not'] = lambda t, a: not_(a[0])
_REBUILD['and'] = lambda t, a: and_(*a)
_REBUILD['ite'] = lambda t, a: ite(*a)
_REBUILD['extract'] = lambda t, a: extract(t.data[0], t.data[1], a[0])
_REBUILD['zext'] = lambda t, a: zext(t.sort, a[0])
_REBUILD['sext'] = lambda t, a: sext(t.sort, a[0])


def _rb_poly(t, a):
    field, monos = t.data
    r = poly_const(field, 0)
    for coef, idxs in monos:
        m = poly_const(field, coef)
        for i in idxs:
            m = poly_mul(field, m, a[i])
        r = poly_add(field, r, m)
    return r


def _rb_lin(t, a):
    r = g_zero()
    for i in range(0, len(a), 2):
        r = g_add(r, g_mul(a[i], a[i + 1]))
    return r


_REBUILD['poly'] = _rb_poly
_REBUILD['lin'] = _rb_lin


def contains(t, vs):
    return any(v in t.fv for v in vs)


def subst(t, m, memo=None):
    """m: dict T(var or any leaf) -> T.  Keys must be 'var' terms."""
    if memo is None:
        memo = {}
    ks = m.keys()

    def go(t):
        if t in m:
            return m[t]
        if not t.fv or t.fv.isdisjoint(ks):
            return t
        r = memo.get(t)
        if r is None:
            r = rebuild(t, tuple(go(a) for a in t.args))
            memo[t] = r
        return r
    return go(t)


def rewrite(t, m):
    """Replace the subterms that are keys of m (any terms without bound variables)."""
    memo = {}
    fv = frozenset().union(*[k.fv for k in m])

    def go(t):
        if t in m:
            return m[t]
        if not t.fv or t.fv.isdisjoint(fv):
            return t
        r = memo.get(t)
        if r is None:
            r = rebuild(t, tuple(go(a) for a in t.args))
            memo[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- z3
import z3 as _z3


class Z:
    """Translation of terms to z3 expressions (one context)."""

    def __init__(self):
        self.U = _z3.DeclareSort('U')
        self.cache = {}
        self.decls = {}

    def sort(self, s):
        if s == 'B':
            return _z3.BoolSort()
        if s == 'U':
            return self.U
        return _z3.BitVecSort(s)

    def tr(self, t):
        r = self.cache.get(t)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x in self.cache:
                stack.pop()
                continue
            todo = [a for a in x.args if a not in self.cache]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.cache[x] = self.one(x, [self.cache[a] for a in x.args])
        return self.cache[t]

    def one(self, t, a):
        op = t.op
        if op == 'c':
            return _z3.BoolVal(t.data) if t.sort == 'B' else _z3.BitVecVal(t.data, t.sort)
        if op in ('var', 'bvar'):
            return _z3.Const('%s$%s$%s' % (op, t.data, t.sort), self.sort(t.sort))
        f = {'not': lambda: _z3.Not(a[0]), 'and': lambda: _z3.And(*a), 'ite': lambda: _z3.If(a[0], a[1], a[2]),
             'eq': lambda: a[0] == a[1], 'bvadd': lambda: a[0] + a[1], 'bvsub': lambda: a[0] - a[1],
             'bvmul': lambda: a[0] * a[1], 'bvand': lambda: a[0] & a[1], 'bvor': lambda: a[0] | a[1],
             'bvxor': lambda: a[0] ^ a[1], 'shl': lambda: a[0] << a[1], 'lshr': lambda: _z3.LShR(a[0], a[1]),
             'ashr': lambda: a[0] >> a[1], 'udiv': lambda: _z3.UDiv(a[0], a[1]), 'urem': lambda: _z3.URem(a[0], a[1]),
             'sdiv': lambda: a[0] / a[1], 'srem': lambda: _z3.SRem(a[0], a[1]),
             'ult': lambda: _z3.ULT(a[0], a[1]), 'ule': lambda: _z3.ULE(a[0], a[1]), 'slt': lambda: a[0] < a[1],
             'sle': lambda: a[0] <= a[1], 'concat': lambda: _z3.Concat(a[0], a[1]),
             'extract': lambda: _z3.Extract(t.data[0], t.data[1], a[0]),
             'zext': lambda: _z3.ZeroExt(t.sort - t.args[0].sort, a[0]),
             'sext': lambda: _z3.SignExt(t.sort - t.args[0].sort, a[0])}.get(op)
        if f is not None:
            return f()
        key = (op, t.data, tuple(x.sort for x in t.args), t.sort)
        d = self.decls.get(key)
        if d is None:
            nm = 'f%d_%s' % (len(self.decls), op)
            d = _z3.Function(nm, *([self.sort(x.sort) for x in t.args] + [self.sort(t.sort)]))
            self.decls[key] = d
        return d(*a) if a else d()
