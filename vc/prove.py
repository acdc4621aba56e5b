"""Contracts, and the proof that a body meets its contract."""
import re
import time
import traceback
from values import *
import values as vals
import term as tm
import exec as xm
from exec import Ex, State, Info, fact, mk_first
import models as M
import refute as rf


class Ctx:
    """What a specification sees: the executor, a state, the result type."""

    def __init__(self, ex, st, rty=None, targs=None, info=None):
        self.ex, self.st, self.rty, self.targs, self.cinfo = ex, st, rty, targs, info

    def d(self, v):
        return self.ex.full_deref(v, self.st)

    def deep(self, v):
        return self.ex.deep(v, self.st)

    def t(self, v):
        return M.tt(self.ex, v, self.st)

    def seq(self, v):
        return M.seqv(self.ex, v, self.st)

    def f(self, v, name, var=0):
        """Field of a struct by name."""
        v = self.d(v)
        return field(v, name, var)

    # -- the specification language
    def info(self, rty=None):
        i = Info()
        i.callee, i.name, i.argtys, i.ty, i.frame, i.bb = {'p': 'spec', 'a': []}, 'spec', [None] * 4, rty if rty is not None else self.rty, None, None
        return i

    def iter(self, v, ety=None):
        """The sequence of values an iterable argument yields, elements of type ety, pointers followed."""
        it = M.as_iter(self.ex, self.ex.into_iter(v, self.st), self.st)
        s = self.ex.purify(it, self.st)
        return seq_map(s, lambda x: self.el(x, ety))

    def el(self, x, ety):
        x = self.ex.resolve(x, self.st)
        while isinstance(x, (Ref, RefV)):
            x = self.ex.resolve(self.ex.deref(x, self.st), self.st)
        if isinstance(x, Opq) and ety is not None and (x.ty is None or TY[x.ty]['k'] in ('ref', 'param', 'alias')):
            x = from_term(x.t, ety)
            while isinstance(x, RefV):
                x = x.v
        return x

    def fold(self, seq, init, fn, rty):
        r = M.ITER['fold'](self.ex, self.st, [It(seq) if isinstance(seq, Seq) else seq, init, PyFn(fn)], self.info(rty))
        assert len(r) == 1, r
        self.st = r[0][0]
        return r[0][1]

    def S(self, *fs):
        return Adt(self.rty, 0, fs)

    def some(self, v, t=None):
        return Adt(self.rty if t is None else t, 1, [v])

    def none(self, t=None):
        return Adt(self.rty if t is None else t, 0, [])

    def ok(self, v, t=None):
        return Adt(self.rty if t is None else t, 0, [v])

    def err(self, v=None, t=None):
        t = self.rty if t is None else t
        if v is None:
            e = TY[t]['a'][1]
            v = Adt(e, 0, [])
        return Adt(t, 1, [v])

    def call(self, name, *args):
        """The specified value of another function."""
        con = REG.get(name)
        if con is None or con.spec is None:
            raise Unsupported('no specification of %s' % name)
        fn = self.ex.byname.get(name)
        if fn is None:
            raise Lost(name)
        sub = Ctx(self.ex, self.st, fn['l'][0])
        r = con.spec(sub, *args)
        if isinstance(r, list):
            assert len(r) == 1
            self.st, r = r[0]
        else:
            self.st = sub.st
        return r

    def write(self, ref, val):
        q = M.root_ref(self.ex, ref, self.st)
        self.ex.write(self.st, q.obj, q.proj, val)


def tyof(v):
    if isinstance(v, (Opq, Adt)):
        return v.ty
    if isinstance(v, Ite):
        return tyof(v.a) if tyof(v.a) is not None else tyof(v.b)
    if isinstance(v, RefV):
        return tyof(v.v)
    return None


def fidx(tyid, name, var=0):
    a = ADTS[TY[tyid]['p']]
    return a['v'][var]['f'].index(name)


def field(v, name, var=0):
    t = tyof(v)
    if t is None:
        raise Unsupported('field %s of %r' % (name, v))
    if name.isdigit():
        i = int(name)
    else:
        fs = ADTS[TY[t]['p']]['v'][var]['f']
        if name not in fs:
            raise Lost('field %s of %s' % (name, TY[t]['s']))
        i = fs.index(name)
    ft = field_types(t, var)
    return project(v, i, ft[i] if ft else None, var)


class Lost(Exception):
    """An anchor of a contract is not there any more."""


# ------------------------------------------------------------------ equality prover
class Peq:
    def __init__(self, ex, budget=25.0):
        self.ex = ex
        self.n = 0
        self.unknown = False
        self.fail = None
        self.deadline = time.time() + budget
        self.memo = {}

    def bad(self, path, a, b, pc, why):
        if self.fail is None:
            self.fail = dict(path=path, got=clip(a), want=clip(b), why=why, pc=[clip(c, 300) for c in pc[-6:]])
            if why == 'sat':
                self.fail['model'] = self.model(pc, a, b)
        return False

    def model(self, pc, a, b):
        if not (isinstance(a, T) and isinstance(b, T)):
            return None
        if self.ex.sol.check(list(pc) + [not_(eq(a, b))], want_model=True) == 'sat':
            m = self.ex.sol.last_model
            out = {}
            for dcl in m.decls():
                if dcl.arity() == 0 and '$' in dcl.name():
                    out[dcl.name()] = str(m[dcl])[:120]
                elif len(out) < 60 and dcl.arity() > 0:
                    out[dcl.name()] = str(m[dcl])[:200]
            return out
        return None

    def sat(self, pc, c=TRUE):
        return self.ex.sol.check(list(pc) + [c]) != 'unsat'

    def split(self, pc, c, fn):
        """fn(pc') on both sides of c."""
        for x in (c, not_(c)):
            if x is FALSE:
                continue
            if x in pc:
                if not fn(pc, x):
                    return False
                continue
            if not_(x) in pc:
                continue
            np = pc + ((x,) if x.op != 'and' else tuple(x.args))
            if self.sat(np) and not fn(np, x):
                return False
        return True

    def val(self, pc, a, b, path=''):
        if time.time() > self.deadline:
            self.unknown = True
            return self.bad(path, a, b, pc, 'time')
        if vsame(a, b):
            self.n += 1
            return True
        if isinstance(a, RefV):
            a = a.v
        if isinstance(b, RefV):
            b = b.v
        if isinstance(a, T) or isinstance(b, T):
            if not (isinstance(a, T) and isinstance(b, T)):
                if isinstance(a, Opq):
                    a = a.t
                if isinstance(b, Opq):
                    b = b.t
                if not (isinstance(a, T) and isinstance(b, T)) or a.sort != b.sort:
                    return self.bad(path, a, b, pc, 'shape')
            return self.term(pc, a, b, path)
        if isinstance(a, Ite) and isinstance(b, Opq) and b.t.op == 'ite' or isinstance(b, Ite) and isinstance(a, Opq) and a.t.op == 'ite':
            s = self.fail
            try:
                if self.term(pc, to_term(a), to_term(b), path):
                    return True
            except Unsupported:
                pass
            self.fail = s
        if isinstance(a, Ite):
            return self.split(pc, a.c, lambda p, x: self.val(p, a.a if x is a.c else a.b, b, path))
        if isinstance(b, Ite):
            return self.split(pc, b.c, lambda p, x: self.val(p, a, b.a if x is b.c else b.b, path))
        if isinstance(a, Adt) and isinstance(b, Adt):
            name = adt_name(a.ty) if a.ty is not None else adt_name(b.ty) if b.ty is not None else ''
            if a.var != b.var:
                return self.bad(path + '.variant', bvc(8, a.var), bvc(8, b.var), pc, 'sat')
            if name == 'subtle::CtOption' and len(a.fs) == 2:
                if not self.val(pc, a.fs[1], b.fs[1], path + '.is_some'):
                    return False
                c = a.fs[1]
                if c is FALSE:
                    return True
                np = pc + (c,)
                return not self.sat(np) or self.val(np, a.fs[0], b.fs[0], path + '.value')
            if len(a.fs) != len(b.fs):
                return self.bad(path, a, b, pc, 'shape')
            fn = ADTS[name]['v'][a.var]['f'] if name in ADTS else []
            for i, (x, y) in enumerate(zip(a.fs, b.fs)):
                if not self.val(pc, x, y, path + '.' + (fn[i] if i < len(fn) else str(i))):
                    return False
            return True
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.fs) == len(b.fs):
            return all(self.val(pc, x, y, path + '.%d' % i) for i, (x, y) in enumerate(zip(a.fs, b.fs)))
        if isinstance(a, Adt) and isinstance(b, Opq):
            return self.adt_opq(pc, a, b, path, False)
        if isinstance(b, Adt) and isinstance(a, Opq):
            return self.adt_opq(pc, b, a, path, True)
        if isinstance(a, Tup) and isinstance(b, Opq) or isinstance(b, Tup) and isinstance(a, Opq):
            tup, o = (a, b) if isinstance(a, Tup) else (b, a)
            if o.ty is not None and TY[o.ty]['k'] == 'tuple':
                ps = [project(o, i, e) for i, e in enumerate(TY[o.ty]['e'])]
                return all(self.val(pc, x, y, path + '.%d' % i) for i, (x, y) in enumerate(zip(tup.fs, ps)))
        if isinstance(a, Seq) or isinstance(b, Seq):
            try:
                sa, sb = as_seq(a, b.ety if isinstance(b, Seq) else None), as_seq(b, a.ety if isinstance(a, Seq) else None)
            except Unsupported:
                return self.bad(path, a, b, pc, 'shape')
            return self.seq(pc, sa, sb, path)
        if isinstance(a, Clo) and isinstance(b, Clo) and a.fn == b.fn:
            return all(self.val(pc, x, y, path + '.cap%d' % i) for i, (x, y) in enumerate(zip(a.caps, b.caps)))
        if isinstance(a, Uninit) and isinstance(b, Uninit):
            return True
        try:
            ta, tb = to_term(a), to_term(b)
        except Unsupported:
            return self.bad(path, a, b, pc, 'shape')
        if ta.sort != tb.sort:
            return self.bad(path, a, b, pc, 'shape')
        return self.term(pc, ta, tb, path)

    def adt_opq(self, pc, a, o, path, swapped):
        t = o.ty if o.ty is not None else a.ty
        if t is None or TY[t]['k'] != 'adt':
            return self.bad(path, a, o, pc, 'shape')
        p = TY[t]['p']
        o = Opq(o.t, t)
        if ADTS[p]['k'] == 'enum':
            vals.note_enum_name(o.t, p)
            d = smart('discr', (o.t,), 64)
            w = bvc(64, int(ADTS[p]['v'][a.var]['d']))
            if not self.term(pc, w if not swapped else d, d if not swapped else w, path + '.variant'):
                return False
            pc = pc + ((eq(d, w),) if eq(d, w) is not TRUE else ())
        ft = field_types(t, a.var)
        fs = [project(o, i, ft[i] if ft else None, a.var) for i in range(len(a.fs))]
        b = Adt(t, a.var, fs)
        return self.val(pc, b, a, path) if swapped else self.val(pc, a, b, path)

    # sequences ----------------------------------------------------------
    def seq(self, pc, a, b, path):
        ca, cb = a.concrete(), b.concrete()
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return self.bad(path + '.len', bvc(64, len(ca)), bvc(64, len(cb)), pc, 'sat')
            try:
                ta, tb = to_term(a), to_term(b)
                if ta is tb:
                    self.n += 1
                    return True
            except Unsupported:
                pass
            return all(self.val(pc, x, y, '%s[%d]' % (path, i)) for i, (x, y) in enumerate(zip(ca, cb)))
        # strip equal segments from both ends
        sa, sb = list(a.segs), list(b.segs)
        la, lb = seq_len(a), seq_len(b)
        if not self.term(pc, la, lb, path + '.len'):
            return False
        while sa and sb:
            g, h = sa[0], sb[0]
            if g[0] == 'lit' and h[0] == 'lit':
                m = min(len(g[1]), len(h[1]))
                for i in range(m):
                    if not self.val(pc, g[1][i], h[1][i], path + '[..]'):
                        return False
                sa[0:1] = [('lit', g[1][m:])] if len(g[1]) > m else []
                sb[0:1] = [('lit', h[1][m:])] if len(h[1]) > m else []
                continue
            if g[0] == h[0] and g[0] in ('lam', 'flat'):
                if self.ex.sol.valid(pc, eq(g[1], h[1])) == 'unsat' or g[1] is h[1]:
                    k = fresh('k', 64)
                    x, y = vsubst(g[3], {g[2]: k}), vsubst(h[3], {h[2]: k})
                    np = pc + (ult(k, g[1]),)
                    if self.sat(np) and not self.val(np, x, y, path + '[*]'):
                        return False
                    sa.pop(0)
                    sb.pop(0)
                    continue
            break
        if not sa and not sb:
            return True
        # pointwise
        if any(g[0] == 'flat' for g in sa + sb):
            return self.bad(path, a, b, pc, 'shape')
        A, B = Seq(sa, a.ety), Seq(sb, b.ety)
        if not sa or not sb:
            r = A if sa else B
            n = seq_len(r)
            return self.term(pc, n if sa else bvc(64, 0), bvc(64, 0) if sa else n, path + '.len')
        k = fresh('k', 64)
        np = pc + (ult(k, seq_len(A)),)
        if not self.sat(np):
            return True
        return self.val(np, seq_at(A, k), seq_at(B, k), path + '[*]')

    # terms ----------------------------------------------------------------
    def term(self, pc, x, y, path, depth=0):
        if x is y:
            self.n += 1
            return True
        if time.time() > self.deadline:
            self.unknown = True
            return self.bad(path, x, y, pc, 'time')
        key = (x, y, pc)
        if key in self.memo:
            return self.memo[key]
        r = self.term_(pc, x, y, path, depth)
        self.memo[key] = r
        return r

    def term_(self, pc, x, y, path, depth):
        if x.sort != y.sort:
            return self.bad(path, x, y, pc, 'shape')
        save = self.fail
        if x.sort != 'U' and not has_quant(x) and not has_quant(y) or (not x.args and not y.args):
            g = eq(x, y)
            r = self.ex.sol.valid(pc, g)
            self.n += 1
            if r == 'unsat':
                return True
            # arguments of uninterpreted functions may still need structural reasoning
            if r == 'unknown':
                self.unknown = True
        # the same choice on both sides
        if x.op == 'ite' and y.op == 'ite':
            same = self.same_cond(pc, x.args[0], y.args[0])
            if same:
                self.n += 1
                p, q = (1, 2) if same > 0 else (2, 1)
                if self.quiet(pc, x.args[1], y.args[p], depth) and self.quiet(pc, x.args[2], y.args[q], depth):
                    self.fail = save
                    return True
        if x.op == y.op and x.sort == 'U' and x.op not in ('ite', 'lin', 'poly') and x.data == y.data and self.congr(pc, x, y, path, depth):
            self.fail = save
            return True
        # case split on a condition
        c = find_cond(x, pc) or find_cond(y, pc)
        if c is not None and depth < 24:
            ok = self.split(pc, c, lambda p, l: self.term(p, assume(x, c, l is c), assume(y, c, l is c), path, depth + 1))
            if ok:
                self.fail = save
                return True
            return False
        if x.sort == 'U' and self.cheap(pc, x, y):
            self.fail = save
            return True
        if self.congr(pc, x, y, path, depth):
            self.fail = save
            return True
        if x.sort == 'U' or has_quant(x) or has_quant(y):
            r = self.ex.sol.valid(pc, eq(x, y))
            self.n += 1
            if r == 'unsat':
                self.fail = save
                return True
            if r == 'unknown':
                self.unknown = True
        return self.bad(path, x, y, pc, 'sat')

    def same_cond(self, pc, a, b):
        if a is b:
            return 1
        if a is not_(b):
            return -1
        if has_quant(a) or has_quant(b):
            return 0
        if self.ex.sol.valid(pc, eq(a, b)) == 'unsat':
            return 1
        return -1 if self.ex.sol.valid(pc, eq(a, not_(b))) == 'unsat' else 0

    def cheap(self, pc, x, y):
        g = eq(x, y)
        return g is TRUE or g in pc

    def congr(self, pc, x, y, path, depth):
        """x = y because they are the same function of equal arguments."""
        if depth > 60:
            return False
        if x.op == 'lin' or y.op == 'lin':
            return self.lin(pc, x, y, path, depth)
        if x.op == 'poly' or y.op == 'poly':
            return self.poly(pc, x, y, path, depth)
        if x.op == 'seq' or y.op == 'seq':
            if x.op == 'seq' and y.op == 'seq' and x.data == y.data:
                return all(self.term(pc, p, q, path, depth + 1) if p.op != 'lam' else self.lam(pc, p, q, path, depth, None) for p, q in zip(x.args, y.args))
            try:
                return self.seq(pc, as_seq(Opq(x, None)), as_seq(Opq(y, None)), path)
            except Unsupported:
                return False
        if (x.op == 'mk') != (y.op == 'mk'):
            return self.eta(pc, x, y, path, depth)
        if x.op != y.op or x.data != y.data or len(x.args) != len(y.args) or not x.args:
            return False
        if x.op in ('lam',):
            return self.lam(pc, x, y, path, depth, None)
        for i, (p, q) in enumerate(zip(x.args, y.args)):
            if p is q:
                continue
            if p.op == 'lam' and q.op == 'lam':
                n = x.args[0] if x.op in ('first', 'gsum', 'fsum', 'fold', 'jfold', 'sumlen') else None
                if not self.lam(pc, p, q, path, depth, n):
                    return False
            elif not self.term(pc, p, q, path, depth + 1):
                return False
        return True

    def eta(self, pc, x, y, path, depth):
        """mk(..) against an opaque term: same variant and same fields."""
        m, o = (x, y) if x.op == 'mk' else (y, x)
        name, var = m.data
        if name not in ADTS:
            return False
        if ADTS[name]['k'] == 'enum':
            vals.note_enum_name(o, name)
            d = smart('discr', (o,), 64)
            if not self.term(pc, d, bvc(64, int(ADTS[name]['v'][var]['d'])), path + '.variant', depth + 1):
                return False
        for i, a in enumerate(m.args):
            f = uf('fld', (o,), a.sort, (name, var, i))
            if not self.term(pc, f if o is x else a, a if o is x else f, path + '.%d' % i, depth + 1):
                return False
        return bool(m.args) or ADTS[name]['k'] == 'enum'

    def lam(self, pc, p, q, path, depth, n):
        if p.data[1] != q.data[1]:
            return False
        k = fresh('k', p.data[1])
        a, b = inst(p, k), inst(q, k)
        np = pc + (ult(k, n),) if n is not None and p.data[1] == 64 else pc
        if np is not pc and not self.sat(np):
            return True
        return self.term(np, a, b, path, depth + 1)

    def lin(self, pc, x, y, path, depth):
        dx, dy = dict(tm.lin_parts(x)), dict(tm.lin_parts(y))
        for a in list(dx):
            if a in dy and dx[a] is dy[a]:
                del dx[a], dy[a]
        if len(dx) != len(dy):
            # coefficients may vanish under the path condition
            return False
        for a in list(dx):
            for b in list(dy):
                if (a is b or (a.op == b.op and a.data == b.data) or True) and self.quiet(pc, a, b, depth) and self.quiet(pc, dx[a], dy[b], depth):
                    del dx[a], dy[b]
                    break
            else:
                return False
        return True

    def quiet(self, pc, a, b, depth):
        s = self.fail
        r = self.term(pc, a, b, '', depth + 1)
        self.fail = s
        return r

    def poly(self, pc, x, y, path, depth):
        f = x.data[0] if x.op == 'poly' else y.data[0]
        dx, dy = dict(tm.poly_parts(f, x)), dict(tm.poly_parts(f, y))
        for k in list(dx):
            if k in dy and dx[k][0] == dy[k][0]:
                del dx[k], dy[k]
        if len(dx) != len(dy):
            return False
        for k in list(dx):
            c, at = dx[k]
            for h in list(dy):
                d, bt = dy[h]
                if c != d or len(at) != len(bt):
                    continue
                rest = list(bt)
                ok = True
                for a in at:
                    for b in rest:
                        if a is b or self.quiet(pc, a, b, depth):
                            rest.remove(b)
                            break
                    else:
                        ok = False
                        break
                if ok:
                    del dx[k], dy[h]
                    break
            else:
                return False
        return True


_hq = {}


def has_quant(t):
    r = _hq.get(t)
    if r is None:
        r = t.op == 'lam' or any(has_quant(a) for a in t.args)
        _hq[t] = r
    return r


def find_cond(t, pc):
    """A condition of an ite inside t (outside lambdas) that pc does not decide."""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen or x.op == 'lam':
            continue
        seen.add(x)
        if x.op == 'ite' and not free_bvars(x.args[0]):
            return x.args[0]
        stack.extend(x.args)
    return None


_hb = {}


def has_bvar(t):
    r = _hb.get(t)
    if r is None:
        r = t.op == 'bvar' or any(has_bvar(a) for a in t.args)
        _hb[t] = r
    return r


_fb = {}


def free_bvars(t):
    r = _fb.get(t)
    if r is None:
        r = frozenset([t]) if t.op == 'bvar' else frozenset().union(*[free_bvars(a) for a in t.args])
        if t.op == 'lam':
            r = r - {tm.bvar(*t.data) if hasattr(tm, 'bvar') else vals.bvar(*t.data)}
        _fb[t] = r
    return r


def defined_symbols(terms):
    """Closed fold and first terms of these terms, inner ones first."""
    seen, out = set(), []

    def go(t):
        if t in seen:
            return
        seen.add(t)
        for a in t.args:
            go(a)
        if t.op in ('fold', 'first') and not free_bvars(t):
            out.append(t)
    for t in terms:
        go(t)
    return out


def replace(t, m, memo):
    def go(t):
        if t in m:
            return m[t]
        if not t.args:
            return t
        r = memo.get(t)
        if r is None:
            na = tuple(go(a) for a in t.args)
            r = t if all(p is q for p, q in zip(na, t.args)) else tm.rebuild(t, na)
            memo[t] = r
        return r
    return go(t)


def value_terms(v):
    out = []
    vals.vmap_terms(v, lambda t: (out.append(t), t)[1])
    return out


def identify_loops(ex, code, spec, budget):
    """Loop results of the specification that are the same function of the same inputs as one of the code,
    as a substitution.  (Two folds with equal start and pointwise equal steps are equal.)"""
    xs = defined_symbols(code)
    have = set(xs)
    m = {}
    for y in defined_symbols(spec):
        if y in have:
            continue
        memo = {}
        z = replace(y, m, memo) if m else y
        if z in have:
            m[y] = z
            continue
        for x in xs:
            if x.op == z.op and x.sort == z.sort and x.data == z.data and len(x.args) == len(z.args):
                pq = Peq(ex, budget)
                if x.op == 'fold' and same_fold(pq, x, z) or x.op != 'fold' and pq.term((), x, z, 'loop'):
                    m[y] = x
                    break
    return m


def same_loops(ex, s, v, cp, obs):
    """The obligations of a postcondition with its loop results identified with those of the code."""
    vt = lambda x: value_terms(ex.deep(x, cp.st))
    sp = [t for ob in obs for x in ob[1:] for t in vt(x)]
    m = identify_loops(ex, list(s.pc) + value_terms(ex.deep(v, s)), sp, 5)
    if not m:
        return obs
    memo = {}
    rep = lambda t: replace(t, m, memo)
    st = State(cp.st.objs)
    for g in cp.st.pc:
        st.add(rep(g))
    out = [(ob[0],) + tuple(vals.vmap_terms(ex.deep(x, cp.st), rep) for x in ob[1:]) for ob in obs]
    cp.st = st
    return out


def same_fold(pq, x, z):
    if x.args[2].op != 'lam' or z.args[2].op != 'lam':
        return x is z
    if not pq.term((), x.args[0], z.args[0], 'count') or not (x.args[1] is z.args[1] or pq.term((), x.args[1], z.args[1], 'start')):
        return False
    k = fresh('k', x.args[2].data[1])
    pc = (ult(k, x.args[0]),)
    a, b = inst(x.args[2], k), inst(z.args[2], k)
    if a.op != 'lam' or b.op != 'lam' or a.data[1] != b.data[1]:
        return False
    acc = fresh('acc', a.data[1])
    i = x.args[1]
    while i.op == 'fold':
        i = i.args[1]
    if i.op == 'mk' and isinstance(i.data[0], str) and i.data[0] in ADTS and ADTS[i.data[0]]['k'] == 'enum':
        pc += (or_(*[eq(smart('discr', (acc,), 64), bvc(64, int(v['d']))) for v in ADTS[i.data[0]]['v']]),)
    b = inst(b, acc)
    if x.args[1] is bvc(64, 0):      # counters: at most one more in each round
        le = ule(acc, k)
        if pq.term(pc + (le,), ule(b, bvadd(k, bvc(64, 1))), TRUE, 'count'):
            pc += (le,)
    return pq.term(pc, inst(a, acc), b, 'step')


def assume(t, c, val):
    memo = {}

    def go(t):
        if t is c:
            return boolc(val)
        if not t.args:
            return t
        r = memo.get(t)
        if r is None:
            if t.op == 'ite' and t.args[0] is c:
                r = go(t.args[1] if val else t.args[2])
            else:
                na = tuple(go(a) for a in t.args)
                r = t if all(p is q for p, q in zip(na, t.args)) else tm.rebuild(t, na)
            memo[t] = r
        return r
    return go(t)


def clip(v, n=700):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '…'


# ------------------------------------------------------------------ contracts
class Contract:
    """spec(c, *args) -> value (or list of (state, value)); effects through c.write.
    post(c, args, ret) -> list of (label, got, want) or (label, boolterm), for relational contracts."""

    def __init__(self, name, props, spec=None, post=None, requires=None, panics=None, skip_apply=False,
                 setup=None, note='', alias=(), budget=40, nocontract=(), optional=False, cost=1, noinv=(), ignore=(), havoc=None, maypanic=False, opaque=None):
        self.name, self.props = name, set(props.split()) if isinstance(props, str) else set(props)
        self.spec, self.post, self.requires, self.panics = spec, post, requires, panics
        self.public, self.skip_apply, self.setup, self.note = name in public_names(), skip_apply, setup, note
        self.alias = alias
        self.budget = budget
        self.nocontract = nocontract
        self.optional = optional
        self.cost = cost
        self.noinv = set(noinv)
        self.ignore = ignore
        self.maypanic = maypanic
        self.opaque = opaque    # for callers of a function whose specification names a defined symbol
        self.havoc = havoc      # for callers of a relational contract: any value allowed by the postcondition

    def apply(self, ex, st, args, info):
        if self.spec is None and self.havoc is None or self.skip_apply or name_in(ex, self.name):
            return NotImplemented
        st0 = st.copy()
        c = Ctx(ex, st, info.ty, info.targs(), info)
        if self.requires:
            for g in self.requires(c, *args):
                if not ex.implied(st, g):
                    ex.panic(st.copy().add(not_(g)), 'precondition of %s' % self.name, M.ex_where(info))
                    st.add(g)
                else:
                    ex.npanic_checks += 1
        if ex.quiet_panics == 0:
            for a in args:
                if isinstance(a, (Clo, PyFn, It)):
                    continue
                try:
                    obs = inv_obligations(ex, ex.deep(a, st))
                except (Unsupported, Lost):
                    obs = ()
                for lab, g, pth in obs:
                    if lab in self.noinv:
                        continue
                    ex.npanic_checks += 1
                    if not ex.implied(st, implies(pth, g)):
                        ex.panic(st.copy().add(pth).add(not_(g)), 'type invariant of %s of an argument of %s' % (lab, self.name), M.ex_where(info))
                        st.add(implies(pth, g))
        if self.panics and ex.quiet_panics == 0 and not ('panic condition of %s' % self.name).startswith(ex.allowed):
            g = self.panics(c, *args)
            ex.npanic_checks += 1
            if not ex.implied(st, not_(g)):
                ex.panic(st.copy().add(g), 'panic condition of %s' % self.name, M.ex_where(info))
                st.add(not_(g))
        r = (self.opaque or self.spec or self.havoc)(c, *args)
        if r is NotImplemented:
            return r
        if not isinstance(r, list):
            r = [(c.st, r)]
        for s1, v in r:
            try:
                for lab, g, pth in inv_obligations(ex, ex.deep(v, s1)):
                    if lab not in self.noinv:
                        s1.add(implies(pth, g))
            except (Unsupported, Lost):
                pass
        return r


def name_in(ex, n):
    return n in ex.nocontract


REG = {}
_pub = []


def public_names():
    if not _pub:
        import os
        _pub.append(set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'public.txt')).read().split('\n')))
    return _pub[0]


def contract(name, props, **kw):
    def d(f):
        kind = kw.pop('kind', 'spec')
        c = Contract(name, props, **{kind: f}, **kw)
        REG[name] = c
        return c
    return d


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'      # proved | failed | unknown | unsupported | missing
        self.obligations = 0
        self.detail = None
        self.seconds = 0.0
        self.queries = 0
        self.used = {}
        self.definite = False
        self.pending = []
        self.bad = None
        self.search = None

    def fail(self, status, detail):
        """Record a failed obligation; the first one is reported.  True: stop looking for more."""
        if self.bad is None:
            self.bad = (status, detail)
        return len(self.pending) >= 6

    def js(self):
        return dict(function=self.name, status=self.status, obligations=self.obligations, seconds=round(self.seconds, 2), queries=self.queries, detail=self.detail)


def sym_arg(ex, st, tid, name, i):
    t = TY[tid]
    if t['k'] == 'ref' and t['m']:
        v = sym_arg(ex, st, t['e'], name, i)
        return Ref(ex.alloc(st, v))
    if t['k'] in ('ref', 'ptr'):
        return RefV(sym_arg(ex, st, t['e'], name, i))
    if t['k'] == 'closure':
        raise Unsupported('closure argument')
    return from_term(var(name, sort_of(tid)), tid)


def setup_args(ex, fn, st, con):
    args = []
    for i in range(1, fn['n'] + 1):
        nm = None
        nm = dict((a, b) for a, b in fn.get('names') or ()).get(i)
        args.append(sym_arg(ex, st, fn['l'][i], nm or 'arg%d' % i, i))
    if con.setup:
        args = con.setup(ex, st, fn, args) or args
    return args


_klen0 = None


def verify(ex, con, drop=()):
    """Discharge the obligations of one contract; calls of the functions in drop are followed into their bodies."""
    r = Result(con.name)
    t0 = time.time()
    q0 = ex.sol.n
    ex.panics, ex.npanic_checks = [], 0
    ex.nocontract = {con.name} | set(con.nocontract) | set(drop)
    ex.used_contracts, ex.inlined, ex.auto_ufs, ex.used_models = set(), set(), set(), set()
    ex.deadline = time.time() + con.budget
    ex.steps = 0
    xm.FACTS.clear()
    vals.DISCR.clear()
    ex.sol.cache.clear()
    global _klen0
    if _klen0 is None:
        _klen0 = dict(vals.KNOWN_LEN)
    vals.KNOWN_LEN.clear()
    vals.KNOWN_LEN.update(_klen0)
    vals._inv_busy.clear()
    vals.INV_OFF = con.noinv
    try:
        fn = ex.byname.get(con.name)
        for al in con.alias:
            fn = fn or ex.byname.get(al)
        if fn is None or 'b' not in fn:
            r.status = 'missing'
            return r
        verify_(ex, con, fn, r)
    except Lost as e:
        r.status, r.detail = 'missing', dict(why=str(e))
    except Unsupported as e:
        r.status, r.detail = 'unsupported', dict(why=str(e), at=trace_tail())
    except xm.SymLoop as e:
        r.status, r.detail = 'unsupported', dict(why='loop outside its function')
    except (RecursionError, TypeError, AttributeError, KeyError, IndexError, AssertionError, ValueError) as e:
        r.status, r.detail = 'unsupported', dict(why='internal: %s: %s' % (type(e).__name__, e), at=trace_tail())
    finally:
        if r.bad is not None:
            if r.status in ('unsupported', 'missing') and r.detail:
                r.bad[1]['then'] = r.detail.get('why')
            r.status, r.detail = r.bad
        if r.pending and (r.status in ('failed', 'unknown')):
            try:
                search(ex, r)
                r.detail['counterexample'] = r.search
            except Exception as e:
                r.detail['counterexample'] = 'search failed: %r' % (e,)
        vals.INV_OFF = ()
        r.seconds = time.time() - t0
        r.queries = ex.sol.n - q0
        r.used = dict(contracts=sorted(ex.used_contracts), inlined=sorted(ex.inlined), assumed=sorted(ex.used_models), uninterpreted=sorted(ex.auto_ufs))
    return r


SANITY = False


def pend(r, pc, lab, got, exp, spc):
    """Queue a failed comparison for the counterexample search."""
    try:
        r.pending.append((tuple(pc), [(lab, to_term(got), to_term(exp))], tuple(spc)))
    except Unsupported as e:
        r.detail2 = 'no term: %s' % e


def ops_of(terms):
    seen, out, stack = set(), set(), list(terms)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        out.add(t.op)
        stack.extend(t.args)
    return out


# functions of a type chosen by the caller: anything they do is possible
CALLERS = re.compile(r'ext:std::convert::\w+::\w+<[A-Z]\w*,')


def search(ex, r):
    """Look for a concrete counterexample to the failed obligations of r."""
    end = time.time() + 40
    for pc, pairs, spc in r.pending:
        if time.time() > end:
            break
        same = [p for p in pairs if p[1].sort == p[2].sort]
        code = ops_of(list(pc) + [p[1] for p in pairs])
        spec = ops_of([p[2] for p in pairs] + list(spc))
        auto = {o for o in code - spec if (o.startswith('ext:') or o in ex.auto_ufs) and not CALLERS.match(o)}
        if auto:
            r.search = 'the code uses functions without a contract: ' + ', '.join(sorted(auto))[:300]
            continue
        if not same:
            continue
        x = rf.refute(pc, rf.Differ(same), seconds=SEARCH_SECONDS)
        if x is None:
            r.search = 'no counterexample found: %s' % (rf._last.get('stats'),)
            continue
        if any(v.data.startswith(rf.APPROX) for v in x.pop('touched')):
            r.search = 'a counterexample of the loop abstraction only'
            continue
        r.definite = True
        r.search = x
        return x


SEARCH_SECONDS = 15.0


def trace_tail():
    return traceback.format_exc().strip().split('\n')[-9:]


def verify_(ex, con, fn, r):
    st = State()
    args = setup_args(ex, fn, st, con)
    rty = fn['l'][0]
    if con.requires:
        c = Ctx(ex, st, rty)
        for g in con.requires(c, *args):
            st.add(g)
    if not ex.feasible(st):
        r.status, r.detail = 'unsupported', dict(why='the precondition is unsatisfiable')
        return
    st_spec = st.copy()
    panic_ok = TRUE if con.maypanic is True else FALSE
    ex.allowed = con.maypanic if isinstance(con.maypanic, tuple) else ()
    if con.panics:
        panic_ok = con.panics(Ctx(ex, st.copy(), rty), *args)
    ex.events = []
    outs = ex.run_fn(fn, args, st)
    panics = list(ex.panics)
    r.obligations += ex.npanic_checks
    for ps, msg, where in panics:
        if msg.startswith(ex.allowed):
            continue
        x = ps.copy().add(not_(panic_ok))
        res = ex.sol.check(list(x.pc), want_model=True)
        if res != 'unsat':
            status = 'failed' if res == 'sat' else 'unknown'
            mod = {}
            if res == 'sat':
                r.pending.append((tuple(x.pc), [('panic', TRUE, FALSE)], ()))
                m = ex.sol.last_model
                mod = {dcl.name(): str(m[dcl])[:120] for dcl in m.decls() if dcl.arity() == 0 and '$' in dcl.name()}
            if r.fail(status, dict(obligation='no panic: %s (in %s)' % (msg, where), pc=[clip(c, 300) for c in x.pc[-8:]], model=mod)):
                return
    outs = [(s, v) for s, v in outs if ex.feasible(s)]
    if not outs:
        r.status, r.detail = 'unsupported', dict(why='no path reaches the end of the body (vacuous)')
        return
    for s, v in outs:
        for lab, c, pth in inv_obligations(ex, ex.deep(v, s)):
            if lab in con.noinv:
                continue
            r.obligations += 1
            res = ex.sol.check(list(s.pc) + ([pth] if pth is not TRUE else []) + [not_(c)])
            if res != 'unsat' or SANITY:
                r.pending.append((tuple(s.pc) + ((pth,) if pth is not TRUE else ()), [('type invariant of ' + lab, c, TRUE)], ()))
            if res != 'unsat':
                if r.fail('failed' if res == 'sat' else 'unknown',
                          dict(obligation='type invariant of %s on the result of %s' % (lab, con.name), why=res, pc=[clip(x, 300) for x in s.pc[-6:]], got=clip(c))):
                    return
    refs = [(i, a) for i, a in enumerate(args) if isinstance(a, Ref)]
    if con.spec:
        ex.quiet_panics += 1
        try:
            cs = Ctx(ex, st_spec, rty)
            want = con.spec(cs, *args)
            if want is NotImplemented:
                raise Unsupported('specification does not apply')
            if not isinstance(want, list):
                want = [(cs.st, want)]
        finally:
            ex.quiet_panics -= 1
        code, sp = [], []
        for s, v in outs:
            code += list(s.pc) + value_terms(ex.deep(v, s)) + [t for i, a in enumerate(args) if isinstance(a, Ref) for t in value_terms(ex.deep(ex.read(s, a.obj, a.proj), s))]
        for s2, w in want:
            sp += list(s2.pc) + value_terms(ex.deep(w, s2)) + [t for i, a in enumerate(args) if isinstance(a, Ref) for t in value_terms(ex.deep(ex.read(s2, a.obj, a.proj), s2))]
        same = identify_loops(ex, code, sp, 5)
        if same:
            memo = {}
            rep = lambda t: replace(t, same, memo)
            nw = []
            for s2, w in want:
                s3 = State({o: (x if isinstance(x, Uninit) else vals.vmap_terms(x, rep)) for o, x in s2.objs.items()})
                for g in s2.pc:
                    s3.add(rep(g))
                nw.append((s3, vals.vmap_terms(ex.deep(w, s2), rep)))
            want = nw
        reach = 0
        for s, v in outs:
            for s2, w in want:
                pc = s.pc + tuple(x for x in s2.pc if x not in s.pcset)
                if ex.sol.check(pc) == 'unsat':
                    continue
                reach += 1
                pq = Peq(ex, con.budget)
                checks = [('result', ex.deep(v, s), ex.deep(w, s2))]
                for i, a in refs:
                    if spec_ignores(con, i):
                        continue
                    checks.append(('*arg%d' % (i + 1), ex.deep(ex.read(s, a.obj, a.proj), s), ex.deep(ex.read(s2, a.obj, a.proj), s2)))
                for lab, got, exp in checks:
                    ok = pq.val(pc, got, exp, lab)
                    if not ok or SANITY:
                        pend(r, pc, lab, got, exp, s2.pc)
                    if not ok:
                        if r.fail('unknown' if pq.unknown and pq.fail and pq.fail['why'] == 'time' else 'failed',
                                  dict(obligation='postcondition of %s' % con.name, **(pq.fail or {}))):
                            return
                r.obligations += pq.n
        if not reach and r.bad is None:
            r.status, r.detail = 'unsupported', dict(why='no reachable pair of outcomes')
            return
    if con.post:
        reach = 0
        for s, v in outs:
            cp = Ctx(ex, s.copy(), rty)
            cp.st0 = st_spec
            obs = same_loops(ex, s, v, cp, con.post(cp, args, v))
            for ob in obs:
                reach += 1
                pq = Peq(ex, con.budget)
                if len(ob) == 2:
                    ok = pq.term(cp.st.pc, ob[1], TRUE, ob[0])
                else:
                    ok = pq.val(cp.st.pc, ex.deep(ob[1], cp.st), ex.deep(ob[2], cp.st), ob[0])
                r.obligations += pq.n
                if not ok or SANITY:
                    if len(ob) == 2:
                        pend(r, cp.st.pc, ob[0], ob[1], TRUE, ())
                    else:
                        pend(r, cp.st.pc, ob[0], ex.deep(ob[1], cp.st), ex.deep(ob[2], cp.st), ())
                if not ok:
                    if r.fail('unknown' if pq.unknown and pq.fail and pq.fail['why'] == 'time' else 'failed',
                              dict(obligation='%s: %s' % (con.name, ob[0]), **(pq.fail or {}))):
                        return
        if not reach:
            r.status, r.detail = 'unsupported', dict(why='the relational postcondition produced no obligation')
            return
    if r.obligations == 0:
        r.obligations = 1


def inv_obligations(ex, v, pc=TRUE, depth=0):
    """Type invariants of the values built by the function: [(type, condition, under)]."""
    out = []
    if depth > 12:
        return out
    if isinstance(v, Ite):
        out += inv_obligations(ex, v.a, and_(pc, v.c), depth + 1)
        out += inv_obligations(ex, v.b, and_(pc, not_(v.c)), depth + 1)
    elif isinstance(v, (Adt, Tup)):
        if isinstance(v, Adt) and v.ty is not None and TY[v.ty]['k'] == 'adt':
            n = TY[v.ty]['p']
            if n in vals.INV:
                for c in vals.INV[n](v):
                    if c is not TRUE:
                        out.append((n, c, pc))
            if n == 'subtle::CtOption' and len(v.fs) == 2:
                return out + inv_obligations(ex, v.fs[0], and_(pc, v.fs[1]), depth + 1)
        for x in v.fs:
            out += inv_obligations(ex, x, pc, depth + 1)
    elif isinstance(v, RefV):
        out += inv_obligations(ex, v.v, pc, depth + 1)
    elif isinstance(v, Seq):
        for g in v.segs:
            if g[0] == 'lit':
                for x in g[1]:
                    out += inv_obligations(ex, x, pc, depth + 1)
            else:
                out += inv_obligations(ex, g[3], and_(pc, ult(g[2], g[1])), depth + 1)
    return out


xm.Ex.inv_obligations = inv_obligations


def invariant(name):
    def d(f):
        vals.INV[name] = f
        return f
    return d


def spec_ignores(con, i):
    return i in getattr(con, 'ignore', ())
