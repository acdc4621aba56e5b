"""Symbolic values, their conversion to terms and back, lambdas and sequences."""
from term import *
import term as tm

TY = []           # type table (list of dicts)
ADTS = {}
TYIDX = {}


class Unsupported(Exception):
    """The engine cannot bring this construct within reach (never an alarm)."""


def load_types(d):
    TY[:] = d['tys']
    ADTS.clear()
    ADTS.update(d['adts'])
    TYIDX.clear()
    for i, t in enumerate(TY):
        TYIDX.setdefault(t['s'], i)


def pseudo(s, **kw):
    if s not in TYIDX:
        TYIDX[s] = len(TY)
        kw['s'] = s
        TY.append(kw)
    return TYIDX[s]


def ty(s):
    """Type id by its printed name."""
    if s in TYIDX:
        return TYIDX[s]
    prim = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}
    if s in prim:
        return pseudo(s, k='uint', w=prim[s])
    if s == 'bool':
        return pseudo(s, k='bool')
    if s.startswith('[') and ';' in s:
        e, n = s[1:-1].rsplit(';', 1)
        return pseudo(s, k='array', e=ty(e.strip()), n=int(n))
    if s.startswith('['):
        return pseudo(s, k='slice', e=ty(s[1:-1]))
    return pseudo(s, k='opaque')


class V:
    __slots__ = ()


class Opq(V):
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __repr__(self):
        return 'Opq(%r)' % (self.t,)


class Adt(V):
    __slots__ = ('ty', 'var', 'fs')

    def __init__(self, ty, var, fs):
        self.ty, self.var, self.fs = ty, var, tuple(fs)

    def __repr__(self):
        n = TY[self.ty]['s'] if self.ty is not None else '?'
        return '%s#%d%r' % (n, self.var, self.fs)


class Tup(V):
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = tuple(fs)

    def __repr__(self):
        return 'Tup%r' % (self.fs,)


class Seq(V):
    """A sequence: segs are ('lit', (v,...)), ('lam', n, bv, body) or ('flat', n, bv, Seq)."""
    __slots__ = ('segs', 'ety')

    def __init__(self, segs, ety=None):
        out = []
        for s in segs:
            if s[0] == 'lit':
                if not s[1]:
                    continue
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + tuple(s[1]))
                    continue
                s = ('lit', tuple(s[1]))
            elif is_c(s[1]) and s[1].data == 0:
                continue
            elif s[0] == 'lam' and is_c(s[1]) and s[1].data <= 4096:
                lit = tuple(vsubst(s[3], {s[2]: bvc(64, i)}) for i in range(s[1].data))
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + lit)
                    continue
                s = ('lit', lit)
            out.append(s)
        self.segs = tuple(out)
        self.ety = ety

    def __repr__(self):
        r = []
        for s in self.segs:
            if s[0] == 'lit':
                r.append('[%s%s]' % (', '.join(map(repr, s[1][:6])), ', …%d' % len(s[1]) if len(s[1]) > 6 else ''))
            else:
                r.append('%s(%r<%r. %r)' % (s[0], s[2], s[1], s[3]))
        return 'Seq<%s>' % ' ++ '.join(r)

    def concrete(self):
        if not self.segs:
            return ()
        if len(self.segs) == 1 and self.segs[0][0] == 'lit':
            return self.segs[0][1]
        return None


class Ref(V):
    __slots__ = ('obj', 'proj')

    def __init__(self, obj, proj=()):
        self.obj, self.proj = obj, tuple(proj)

    def __repr__(self):
        return '&o%d%r' % (self.obj, self.proj)


class RefV(V):
    """A shared reference to a value snapshot."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '&%r' % (self.v,)


class Clo(V):
    __slots__ = ('fn', 'caps')

    def __init__(self, fn, caps):
        self.fn, self.caps = fn, tuple(caps)

    def __repr__(self):
        return 'Clo(%s)' % self.fn


class FnItem(V):
    __slots__ = ('callee',)

    def __init__(self, callee):
        self.callee = callee

    def __repr__(self):
        return 'fn(%s)' % (self.callee.get('r') or self.callee['p'])


class Ite(V):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'ite(%r ? %r : %r)' % (self.c, self.a, self.b)


class It(V):
    """An iterator: a source and a pipeline of closure stages."""
    __slots__ = ('src', 'ops')

    def __init__(self, src, ops=()):
        self.src, self.ops = src, tuple(ops)

    def __repr__(self):
        return 'It(%r, %r)' % (self.src, self.ops)


class Uninit(V):
    __slots__ = ()

    def __repr__(self):
        return 'uninit'


UNINIT = Uninit()
UNIT = Tup(())


# ---------------------------------------------------------------- generic traversal
def vmap_terms(v, f):
    """Rebuild a value applying f to every term in it."""
    if isinstance(v, T):
        return f(v)
    if isinstance(v, Opq):
        t = f(v.t)
        return v if t is v.t else from_term(t, v.ty)
    if isinstance(v, Adt):
        return Adt(v.ty, v.var, [vmap_terms(x, f) for x in v.fs])
    if isinstance(v, Tup):
        return Tup([vmap_terms(x, f) for x in v.fs])
    if isinstance(v, Seq):
        segs = []
        for s in v.segs:
            if s[0] == 'lit':
                segs.append(('lit', tuple(vmap_terms(x, f) for x in s[1])))
            else:
                segs.append((s[0], f(s[1]), s[2], vmap_terms(s[3], f)))
        return Seq(segs, v.ety)
    if isinstance(v, RefV):
        return RefV(vmap_terms(v.v, f))
    if isinstance(v, Ref):
        return Ref(v.obj, tuple(tuple(f(y) if isinstance(y, T) else y for y in p) if isinstance(p, tuple) else p for p in v.proj))
    if isinstance(v, Clo):
        return Clo(v.fn, [vmap_terms(x, f) for x in v.caps])
    if isinstance(v, Ite):
        return vite(f(v.c), vmap_terms(v.a, f), vmap_terms(v.b, f))
    if isinstance(v, It):
        return It(vmap_src(v.src, f), [tuple(vmap_terms(x, f) if isinstance(x, (V, T)) else x for x in op) for op in v.ops])
    return v


def vmap_src(src, f):
    if isinstance(src, V):
        return vmap_terms(src, f)
    return tuple(vmap_src(x, f) if isinstance(x, (tuple, V)) else f(x) if isinstance(x, T) else x for x in src)


def vfv(v):
    out = set()
    vmap_terms_ro(v, lambda t: out.update(t.fv))
    return out


def vmap_terms_ro(v, f):
    if isinstance(v, T):
        f(v)
    elif isinstance(v, Opq):
        f(v.t)
    elif isinstance(v, (Adt, Tup)):
        for x in v.fs:
            vmap_terms_ro(x, f)
    elif isinstance(v, Seq):
        for s in v.segs:
            if s[0] == 'lit':
                for x in s[1]:
                    vmap_terms_ro(x, f)
            else:
                f(s[1])
                vmap_terms_ro(s[3], f)
    elif isinstance(v, RefV):
        vmap_terms_ro(v.v, f)
    elif isinstance(v, Ref):
        for p in v.proj:
            if isinstance(p, tuple):
                for y in p:
                    if isinstance(y, T):
                        f(y)
    elif isinstance(v, Clo):
        for x in v.caps:
            vmap_terms_ro(x, f)
    elif isinstance(v, Ite):
        f(v.c)
        vmap_terms_ro(v.a, f)
        vmap_terms_ro(v.b, f)
    elif isinstance(v, It):
        def go(s):
            if isinstance(s, (V, T)):
                vmap_terms_ro(s, f)
            elif isinstance(s, tuple):
                for x in s:
                    go(x)
        go(v.src)
        for op in v.ops:
            go(op)


def vsubst(v, m):
    memo = {}
    return vmap_terms(v, lambda t: subst(t, m, memo))


# ---------------------------------------------------------------- lambdas
def lam(v, body):
    """Close body over the variable v (alpha-canonical)."""
    L = body.h
    b = subst(body, {v: bvar(L, v.sort)})
    t = mk('lam', (b,), 'U', (L, v.sort))
    t.h = L + 1
    return t


def inst(l, x):
    L, s = l.data
    memo = {}
    target = bvar(L, s)

    def go(t):
        if t is target:
            return x
        if not t.args or t.h < 0:
            return t
        if t.op == 'lam' and t.data == l.data and t is not l:
            # same level below: shadowed
            return t
        r = memo.get(t)
        if r is None:
            na = tuple(go(a) for a in t.args)
            r = t if all(p is q for p, q in zip(na, t.args)) else rebuild(t, na)
            memo[t] = r
        return r
    return go(l.args[0])


def _rb_lam(t, a):
    L, s = t.data
    body = a[0]
    if body.h == L:
        r = mk('lam', (body,), 'U', t.data)
        r.h = L + 1
        return r
    v = fresh('re', s)
    tmp = mk('lam', (body,), 'U', t.data)
    tmp.h = body.h + 1
    return lam(v, inst(tmp, v))


tm._REBUILD['lam'] = _rb_lam


# ---------------------------------------------------------------- terms <-> values
def sort_of(tyid):
    if tyid is None:
        return 'U'
    t = TY[tyid]
    k = t['k']
    if k == 'bool':
        return 'B'
    if k in ('int', 'uint'):
        return t['w']
    if k == 'char':
        return 32
    if k == 'adt' and t['p'] == 'subtle::Choice':
        return 'B'
    return 'U'


def signed(tyid):
    return TY[tyid]['k'] == 'int'


def strip_ref(tyid):
    while tyid is not None and TY[tyid]['k'] in ('ref', 'ptr'):
        tyid = TY[tyid]['e']
    return tyid


BOXLIKE = ('std::boxed::Box', 'alloc::boxed::Box')


def mkval(op, args, tyid, data=None):
    """A value of the given type denoted by an uninterpreted application."""
    if tyid is not None:
        t = TY[tyid]
        if t['k'] in ('ref', 'ptr'):
            return RefV(mkval(op, args, t['e'], data))
        if t['k'] == 'tuple' and not t['e']:
            return UNIT
        if t['k'] == 'adt' and t['p'] in BOXLIKE:
            return mkval(op, args, t['a'][0], data)
        if t['k'] == 'fndef':
            return FnItem({'p': t['p'], 'a': t['a']})
    s = sort_of(tyid)
    r = smart(op, args, s, data)
    return from_term(r, tyid)


def smart(op, args, s, data=None):
    f = SMART.get(op)
    if f is not None:
        return f(args, s, data)
    return uf(op, args, s, data)


SMART = {}

# The variants an enum-typed term can have. Terms are rebuilt under substitution (a bound index
# becomes another one), so the entry is kept by the path of projections, without indices.
DISCR = {}


def dpath(t):
    p = []
    while True:
        p.append((t.op, t.data if t.op in ('fld', 'var') or not t.args else None))
        if not t.args or len(p) > 40:
            return tuple(p)
        t = t.args[0]


def note_enum(t, tyid):
    if t.op == 'ite':
        note_enum(t.args[1], tyid)
        note_enum(t.args[2], tyid)
        return
    if tyid is None or TY[tyid]['k'] != 'adt':
        return
    note_enum_name(t, TY[tyid]['p'])


def note_enum_name(t, name):
    a = ADTS.get(name)
    if a is None or a['k'] != 'enum':
        return
    k = dpath(t)
    dom = frozenset(int(v['d']) for v in a['v'])
    DISCR[k] = DISCR.get(k, frozenset()) | dom


class PyFn(V):
    """A function of the specification language: fn(st, *args) -> value or [(st, value)]."""

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return 'PyFn'


INV = {}        # type name -> (term of the value) -> list of facts (type invariants)
_inv_busy = set()
INV_OFF = ()


def from_term(t, tyid):
    r = from_term_(t, tyid)
    if INV and tyid is not None and isinstance(r, Opq) and TY[tyid]['k'] == 'adt' and TY[tyid]['p'] in INV and TY[tyid]['p'] not in INV_OFF and (t, tyid) not in _inv_busy:
        _inv_busy.add((t, tyid))
        for f in INV[TY[tyid]['p']](r):
            FACT(t, f)
    return r


FACT = None


def from_term_(t, tyid):
    if t.sort != 'U':
        return t
    if t.op == 'ite':
        return vite(t.args[0], from_term(t.args[1], tyid), from_term(t.args[2], tyid))
    if tyid is not None:
        k = TY[tyid]['k']
        if k in ('ref', 'ptr'):
            return RefV(from_term(t, TY[tyid]['e']))
        if k == 'tuple' and not TY[tyid]['e']:
            return UNIT
        if k == 'adt' and t.op != 'mk' and len(TY[tyid].get('v') or ()) == 1 and TY[tyid]['v'][0] == [] and ADTS[TY[tyid]['p']]['k'] == 'struct' and ADTS[TY[tyid]['p']].get('local'):
            return Adt(tyid, 0, [])
        if t.op == 'mk' and k == 'adt':
            var = t.data[1]
            ft = field_types(tyid, var)
            if ft is None or len(ft) != len(t.args):
                ft = [None] * len(t.args)
            return Adt(tyid, var, [from_term(a, f) for a, f in zip(t.args, ft)])
        if t.op == 'mk' and k == 'tuple' and len(TY[tyid]['e']) == len(t.args):
            return Tup([from_term(a, f) for a, f in zip(t.args, TY[tyid]['e'])])
    if t.op == 'seq':
        return term_to_seq(t, elem_type(tyid) if tyid is not None else None)
    return Opq(t, tyid)


def field_types(tyid, var):
    t = TY[tyid]
    if t['k'] == 'adt' and var < len(t['v']):
        return t['v'][var]
    return None


def elem_type(tyid):
    if tyid is None:
        return None
    t = TY[tyid]
    if t['k'] in ('array', 'slice'):
        return t['e']
    if t['k'] == 'str':
        return ty('u8')
    if t['k'] == 'adt' and t['p'] in SEQ_ADTS:
        return t['a'][0] if isinstance(t['a'][0], int) else None
    return None


SEQ_ADTS = ('std::vec::Vec', 'nonempty::NonEmpty', 'std::collections::VecDeque')


def is_seq_type(tyid):
    t = TY[tyid]
    return t['k'] in ('array', 'slice', 'str') or (t['k'] == 'adt' and t['p'] in SEQ_ADTS)


# field projection -------------------------------------------------
def _s_fld(args, s, data):
    t, = args
    adt, var, i = data
    if t.op == 'mk' and t.data[1] == var and i < len(t.args):
        return t.args[i]
    if t.op == 'ite':
        return ite(t.args[0], _s_fld((t.args[1],), s, data), _s_fld((t.args[2],), s, data))
    return mk('fld', (t,), s, data)


def _s_len(args, s, data):
    t, = args
    if t.op == 'seq':
        r = bvc(64, 0)
        for seg in seq_segs(t):
            if seg[0] == 'lit':
                r = bvadd(r, bvc(64, len(seg[1])))
            elif seg[0] == 'lam':
                r = bvadd(r, seg[1])
            else:
                r = bvadd(r, mk('sumlen', (seg[1], seg[2]), 64))
        return r
    if t.op == 'ite':
        return ite(t.args[0], _s_len((t.args[1],), s, data), _s_len((t.args[2],), s, data))
    if t.op in ('perm', 'store'):
        return _s_len((t.args[0],), s, data)
    if t.op == 'fold':
        b = t.args[2].args[0]           # lam k (lam acc body)
        if b.op == 'lam' and b.data[1] == 'U' and stores(b.args[0], bvar(*b.data)):
            return _s_len((t.args[1],), s, data)
    if KNOWN_LEN is not None and t in KNOWN_LEN:
        return bvc(64, KNOWN_LEN[t])
    return mk('len', (t,), 64)


def stores(t, p):
    """t is p with elements overwritten"""
    if t is p:
        return True
    if t.op == 'store':
        return stores(t.args[0], p)
    return t.op == 'ite' and stores(t.args[1], p) and stores(t.args[2], p)


def _s_idx(args, s, data):
    t, i = args
    if t.op == 'store':
        return ite(eq(i, t.args[1]), t.args[2], _s_idx((t.args[0], i), s, data))
    if t.op == 'seq':
        segs = seq_segs(t)
        off = bvc(64, 0)
        res = None
        alts = []
        for seg in segs:
            if seg[0] == 'lit':
                n = bvc(64, len(seg[1]))
                rel = bvsub(i, off)
                if is_c(rel) and rel.data < len(seg[1]) and not alts:
                    return seg[1][rel.data]
                if is_c(rel) and is_c(off):
                    off = bvadd(off, n)
                    continue
                val = None
                for j, e in reversed(list(enumerate(seg[1]))):
                    val = e if val is None else ite(eq(rel, bvc(64, j)), e, val)
                alts.append((off, n, val))
                off = bvadd(off, n)
            elif seg[0] == 'lam':
                alts.append((off, seg[1], inst(seg[2], bvsub(i, off))))
                off = bvadd(off, seg[1])
            else:
                return mk('idx', (t, i), s)
        if not alts:
            return mk('idx', (t, i), s)
        res = alts[-1][2]
        for off, n, val in reversed(alts[:-1]):
            res = ite(ult(i, bvadd(off, n)), val, res)
        return res
    if t.op == 'ite':
        return ite(t.args[0], _s_idx((t.args[1], i), s, data), _s_idx((t.args[2], i), s, data))
    if t.op == 'perm':
        # perm(seq, r): the sequence permuted by a bijection of [0, len) chosen by r
        n = _s_len((t.args[0],), 64, None)
        return _s_idx((t.args[0], mk('pi', (t.args[1], n, i), 64)), s, data)
    return mk('idx', (t, i), s)


def _s_discr(args, s, data):
    t, = args
    if t.op == 'mk' and isinstance(t.data[0], str):
        p = t.data[0]
        if p in ADTS:
            return bvc(s, int(ADTS[p]['v'][t.data[1]]['d']))
    if t.op == 'ite':
        return ite(t.args[0], _s_discr((t.args[1],), s, data), _s_discr((t.args[2],), s, data))
    return mk('discr', (t,), s)


_s_fld, _s_len, _s_idx, _s_discr = [tm.traced(n, f) for n, f in (('fld', _s_fld), ('len', _s_len), ('idx', _s_idx), ('discr', _s_discr))]
SMART.update(fld=_s_fld, len=_s_len, idx=_s_idx, discr=_s_discr)
for _k, _f in list(SMART.items()):
    tm._REBUILD[_k] = (lambda f: lambda t, a: f(a, t.sort, t.data))(_f)


def adt_name(tyid):
    if tyid is None:
        return '?'
    t = TY[tyid]
    return t['p'] if t['k'] == 'adt' else 'tuple' if t['k'] == 'tuple' else t['s']


def project(v, i, fty, var=0):
    """Field i (of variant var) of a value."""
    if isinstance(v, (Adt, Tup)):
        if isinstance(v, Adt) and v.var != var:
            raise Unsupported('field of variant %d of a value of variant %d: %r' % (var, v.var, v))
        return v.fs[i]
    if isinstance(v, Clo):
        return v.caps[i]
    if isinstance(v, Ite):
        # a branch of a different variant cannot be the live one here
        a = v.a if not (isinstance(v.a, Adt) and v.a.var != var) else None
        b = v.b if not (isinstance(v.b, Adt) and v.b.var != var) else None
        if a is None and b is not None:
            return project(v.b, i, fty, var)
        if b is None and a is not None:
            return project(v.a, i, fty, var)
        return vite(v.c, project(v.a, i, fty, var), project(v.b, i, fty, var))
    if isinstance(v, Opq):
        name = adt_name(v.ty) if v.ty is not None else '?'
        return mkval('fld', (v.t,), fty, (name, var, i))
    if isinstance(v, RefV):
        return project(v.v, i, fty, var)
    raise Unsupported('field projection of %r' % (v,))


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if isinstance(a, Adt) and isinstance(b, Adt) and a.var == b.var and len(a.fs) == len(b.fs):
        return Adt(a.ty, a.var, [vite(c, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.fs) == len(b.fs):
        return Tup([vite(c, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, RefV) and isinstance(b, RefV):
        return RefV(vite(c, a.v, b.v))
    if isinstance(a, Opq) and isinstance(b, Opq) and a.t is b.t:
        return a
    if isinstance(a, Seq) and isinstance(b, Seq):
        ca, cb = a.concrete(), b.concrete()
        if ca is not None and cb is not None and len(ca) == len(cb):
            return Seq([('lit', [vite(c, x, y) for x, y in zip(ca, cb)])], a.ety)
    if isinstance(a, Ref) and isinstance(b, Ref) and a.obj == b.obj and a.proj == b.proj:
        return a
    if isinstance(a, Clo) and isinstance(b, Clo) and a.fn == b.fn:
        return Clo(a.fn, [vite(c, x, y) for x, y in zip(a.caps, b.caps)])
    if vsame(a, b):
        return a
    return Ite(c, a, b)


def vsame(a, b):
    """Cheap structural identity."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, T):
        return a is b
    if isinstance(a, Opq):
        return a.t is b.t
    if isinstance(a, (Adt, Tup)):
        return (not isinstance(a, Adt) or a.var == b.var) and len(a.fs) == len(b.fs) and all(vsame(x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Seq):
        if len(a.segs) != len(b.segs):
            return False
        for s, u in zip(a.segs, b.segs):
            if s[0] != u[0]:
                return False
            if s[0] == 'lit':
                if len(s[1]) != len(u[1]) or not all(vsame(x, y) for x, y in zip(s[1], u[1])):
                    return False
            elif s is not u and not (s[1] is u[1] and s[2] is u[2] and vsame(s[3], u[3])):
                return seq_term_of(a) is seq_term_of(b) if _termable(a) and _termable(b) else False
        return True
    if isinstance(a, RefV):
        return vsame(a.v, b.v)
    if isinstance(a, Ref):
        return a.obj == b.obj and a.proj == b.proj
    if isinstance(a, Clo):
        return a.fn == b.fn and len(a.caps) == len(b.caps) and all(vsame(x, y) for x, y in zip(a.caps, b.caps))
    if isinstance(a, FnItem):
        return a.callee == b.callee
    if isinstance(a, Ite):
        return a.c is b.c and vsame(a.a, b.a) and vsame(a.b, b.b)
    if isinstance(a, Uninit):
        return True
    if isinstance(a, It):
        if len(a.ops) != len(b.ops):
            return False
        for p, q in zip(a.ops, b.ops):
            if len(p) != len(q):
                return False
            for x, y in zip(p, q):
                if isinstance(x, V):
                    if not vsame(x, y):
                        return False
                elif x is not y and x != y:
                    return False
        if isinstance(a.src, V) and isinstance(b.src, V):
            return vsame(a.src, b.src)
        return a.src is b.src or a.src == b.src
    return False


def _termable(v):
    try:
        to_term(v)
        return True
    except Unsupported:
        return False


# sequences --------------------------------------------------------
def seq_segs(t):
    """Segments of a 'seq' term: ('lit', args) | ('lam', n, lamterm) | ('flat', n, lamterm)."""
    out = []
    i = 0
    for kind, cnt in t.data:
        a = t.args[i:i + cnt]
        i += cnt
        if kind == 'lit':
            out.append(('lit', a))
        else:
            out.append((kind, a[0], a[1]))
    return out


def mk_seq_term(segs):
    data, args = [], []
    for s in segs:
        if s[0] == 'lit':
            if not s[1]:
                continue
            if data and data[-1][0] == 'lit':
                data[-1] = ('lit', data[-1][1] + len(s[1]))
            else:
                data.append(('lit', len(s[1])))
            args += list(s[1])
        else:
            if is_c(s[1]) and s[1].data == 0:
                continue
            data.append((s[0], 2))
            args += [s[1], s[2]]
    return mk('seq', args, 'U', tuple(data))


tm._REBUILD['seq'] = lambda t, a: _rb_seq(t, a)


def _rb_seq(t, a):
    i = 0
    segs = []
    for kind, cnt in t.data:
        x = a[i:i + cnt]
        i += cnt
        segs.append(('lit', x) if kind == 'lit' else (kind, x[0], x[1]))
    return mk_seq_term(segs)


def seq_term_of(v):
    segs = []
    for s in v.segs:
        if s[0] == 'lit':
            segs.append(('lit', [to_term(x) for x in s[1]]))
        else:
            segs.append((s[0], s[1], lam(s[2], to_term(s[3]))))
    # eta: the whole of one opaque sequence
    if len(segs) == 1:
        s = segs[0]
        if s[0] == 'lit' and s[1]:
            e0 = s[1][0]
            if e0.op == 'idx' and is_c(e0.args[1]) and e0.args[1].data == 0:
                base = e0.args[0]
                n = known_len(base)
                if n == len(s[1]) and all(e.op == 'idx' and e.args[0] is base and is_c(e.args[1]) and e.args[1].data == j for j, e in enumerate(s[1])):
                    return base
        if s[0] == 'lam':
            b = s[2].args[0]
            if b.op == 'idx' and b.args[1] is bvar(*s[2].data) and s[1] is _s_len((b.args[0],), 64, None) and not uses_bvar(b.args[0], s[2].data[0]):
                return b.args[0]
    return mk_seq_term(segs)


def uses_bvar(t, L):
    seen = set()

    def go(t):
        if t in seen:
            return False
        seen.add(t)
        if t.op == 'bvar':
            return t.data == L
        if t.op == 'lam' and t.data[0] == L:
            return False
        return any(go(a) for a in t.args)
    return go(t)


class KnownLen(dict):
    """opaque term -> concrete length: arrays by registration, some functions by their name"""
    OPS = {'sig_bytes': 64, 'repr': 32, 'ptrepr': 32, 'ne_enc': 580, 'ne_out': 80}

    def __missing__(self, t):
        n = t.data if t.op == 'blake2b' else self.OPS.get(t.op)
        if n is None:
            raise KeyError(t)
        return n

    def __contains__(self, t):
        return dict.__contains__(self, t) or t.op == 'blake2b' or t.op in self.OPS

    def get(self, t, d=None):
        return self[t] if t in self else d


KNOWN_LEN = KnownLen()


def known_len(t):
    return KNOWN_LEN.get(t)


def term_to_seq(t, ety):
    segs = []
    for s in seq_segs(t):
        if s[0] == 'lit':
            segs.append(('lit', tuple(from_term(x, ety) for x in s[1])))
        else:
            k = fresh('i', 64)
            b = inst(s[2], k)
            segs.append((s[0], s[1], k, from_term(b, ety) if s[0] == 'lam' else as_seq(from_term(b, None), ety)))
    return Seq(segs, ety)


def as_seq(v, ety=None):
    if isinstance(v, Seq):
        return v
    if isinstance(v, RefV):
        return as_seq(v.v, ety)
    if isinstance(v, Ite):
        a, b = as_seq(v.a, ety), as_seq(v.b, ety)
        ca, cb = a.concrete(), b.concrete()
        if ca is not None and cb is not None and len(ca) == len(cb):
            return Seq([('lit', [vite(v.c, x, y) for x, y in zip(ca, cb)])], a.ety)
        t = to_term(v)
        k = fresh('i', 64)
        e = a.ety if a.ety is not None else b.ety
        return Seq([('lam', _s_len((t,), 64, None), k, mkval('idx', (t, k), e))], e)
    if isinstance(v, Opq):
        if v.t.op == 'seq':
            return term_to_seq(v.t, ety)
        e = ety
        if v.ty is not None:
            e2 = elem_type(v.ty)
            e = e2 if e2 is not None else e
            tt = TY[v.ty]
            if tt['k'] == 'array' and isinstance(tt['n'], int):
                n = tt['n']
                KNOWN_LEN[v.t] = n
                return Seq([('lit', [mkval('idx', (v.t, bvc(64, i)), e) for i in range(n)])], e)
        if v.t in KNOWN_LEN:
            return Seq([('lit', [mkval('idx', (v.t, bvc(64, i)), e) for i in range(KNOWN_LEN[v.t])])], e)
        k = fresh('i', 64)
        return Seq([('lam', _s_len((v.t,), 64, None), k, mkval('idx', (v.t, k), e))], e)
    if isinstance(v, Tup):
        return Seq([('lit', v.fs)])
    raise Unsupported('not a sequence: %r' % (v,))


def seq_len(s):
    r = bvc(64, 0)
    for g in s.segs:
        if g[0] == 'lit':
            r = bvadd(r, bvc(64, len(g[1])))
        elif g[0] == 'lam':
            r = bvadd(r, g[1])
        else:
            n = seq_len(g[3])
            if g[2] not in n.fv:
                r = bvadd(r, bvmul(g[1], n))
            else:
                r = bvadd(r, mk('sumlen', (g[1], lam(g[2], to_term(g[3]))), 64))
    return r


def seq_at(s, i):
    """Element at index i (a 64-bit term); assumes in bounds."""
    off = bvc(64, 0)
    alts = []
    for g in s.segs:
        rel = bvsub(i, off)
        if g[0] == 'lit':
            n = bvc(64, len(g[1]))
            if is_c(rel) and is_c(off):
                if rel.data < len(g[1]) and not alts:
                    return g[1][rel.data]
                if i.data >= off.data + len(g[1]):
                    off = bvadd(off, n)
                    continue
            val = g[1][-1]
            for j in range(len(g[1]) - 2, -1, -1):
                val = vite(eq(rel, bvc(64, j)), g[1][j], val)
            alts.append((bvadd(off, n), val))
        elif g[0] == 'lam':
            n = g[1]
            alts.append((bvadd(off, n), vsubst(g[3], {g[2]: rel})))
        else:
            raise Unsupported('index into a flattened sequence')
        off = bvadd(off, n)
    if not alts:
        raise Unsupported('index %r outside sequence %r' % (i, s))
    r = alts[-1][1]
    for end, val in reversed(alts[:-1]):
        r = vite(ult(i, end), val, r)
    return r


def seq_concat(a, b):
    return Seq(a.segs + b.segs, a.ety if a.ety is not None else b.ety)


def seq_slice(s, lo, hi):
    """s[lo..hi]; lo/hi 64-bit terms."""
    n = seq_len(s)
    if is_c(lo) and lo.data == 0 and hi is n:
        return s
    if is_c(lo) and is_c(hi):
        c = s.concrete()
        if c is not None:
            return Seq([('lit', c[lo.data:hi.data])], s.ety)
        # walk the segments while their boundaries are concrete
        out, off = [], 0
        for g in s.segs:
            if off >= hi.data:
                return Seq(out, s.ety)
            if g[0] == 'lit':
                a, b = max(lo.data - off, 0), min(hi.data - off, len(g[1]))
                if a < b:
                    out.append(('lit', g[1][a:b]))
                off += len(g[1])
            else:
                break
        if off >= hi.data:
            return Seq(out, s.ety)
        if len(s.segs) == 1 and s.segs[0][0] == 'lam':
            g = s.segs[0]
            return Seq([('lit', [vsubst(g[3], {g[2]: bvc(64, j)}) for j in range(lo.data, hi.data)])], s.ety)
    # general
    if is_c(lo) and hi is n:
        segs = list(s.segs)
        drop = lo.data
        while drop and segs and segs[0][0] == 'lit':
            c = segs[0][1]
            if len(c) <= drop:
                drop -= len(c)
                segs.pop(0)
            else:
                segs[0] = ('lit', c[drop:])
                drop = 0
        if not drop:
            return Seq(segs, s.ety)
        if segs and segs[0][0] == 'lam':
            g = segs[0]
            return Seq([('lam', bvsub(g[1], bvc(64, drop)), g[2], vsubst(g[3], {g[2]: bvadd(g[2], bvc(64, drop))}))] + segs[1:], s.ety)
    k = fresh('i', 64)
    return Seq([('lam', bvsub(hi, lo), k, seq_at(s, bvadd(k, lo)))], s.ety)


def seq_map(s, f):
    segs = []
    for g in s.segs:
        if g[0] == 'lit':
            segs.append(('lit', [f(x) for x in g[1]]))
        elif g[0] == 'lam':
            segs.append(('lam', g[1], g[2], f(g[3])))
        else:
            segs.append(('flat', g[1], g[2], seq_map(g[3], f)))
    return Seq(segs)


def bytes_seq(bs):
    return Seq([('lit', [bvc(8, b) for b in bs])], ty('u8'))


# value -> term ----------------------------------------------------
def to_term(v):
    if isinstance(v, T):
        return v
    if isinstance(v, Opq):
        return v.t
    if isinstance(v, Adt):
        args = [to_term(x) for x in v.fs]
        name = adt_name(v.ty) if v.ty is not None else '?'
        return mk_adt_term(name, v.var, args)
    if isinstance(v, Tup):
        args = [to_term(x) for x in v.fs]
        return mk_adt_term('tuple', 0, args)
    if isinstance(v, Seq):
        return seq_term_of(v)
    if isinstance(v, RefV):
        return to_term(v.v)
    if isinstance(v, Ite):
        return ite(v.c, to_term(v.a), to_term(v.b))
    if isinstance(v, FnItem):
        return uf('fnitem', (), 'U', v.callee.get('r') or v.callee['p'])
    if isinstance(v, Clo):
        return uf('closure', [to_term(x) for x in v.caps], 'U', v.fn)
    raise Unsupported('no term for %r' % (v,))


def mk_adt_term(name, var, args):
    # eta: all fields of one opaque term
    if args and args[0].op == 'fld' and args[0].data == (name, var, 0) and name in ADTS and ADTS[name]['k'] == 'struct':
        b = args[0].args[0]
        if len(ADTS[name]['v'][var]['f']) == len(args) and all(
                a.op == 'fld' and a.args[0] is b and a.data == (name, var, i) for i, a in enumerate(args)):
            return b
    return mk('mk', args, 'U', (name, var))


tm._REBUILD['mk'] = lambda t, a: mk_adt_term(t.data[0], t.data[1], list(a))


def canon_scalar(v):
    return v if isinstance(v, T) else to_term(v)


seq_len, seq_at, seq_concat, seq_slice = [tm.traced(f.__name__, f) for f in (seq_len, seq_at, seq_concat, seq_slice)]
