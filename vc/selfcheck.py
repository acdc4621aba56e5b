"""The term rewriter checked on the very steps a proof used (thorough tier).

With VC_TRACE set, term.py and values.py record every call of a simplifying constructor with its result.  Here each
recorded step that did simplify is checked again without the rewriter:
  boolean and bit-vector steps    z3 proves that the unsimplified term equals the result
  field and group normal forms    both sides evaluated at random points (a wrong identity of degree d survives with
                                  probability d / 2^254)
  sequences, projections          both sides evaluated under random interpretations
A step that does not hold is a defect of this verifier, and the check gives no answer."""
import random
import z3
import term as tm
import values as vals
from term import T, mk, is_c

BIN = {'bvadd': 'bvadd', 'bvsub': 'bvsub', 'bvmul': 'bvmul', 'bvand': 'bvand', 'bvor': 'bvor', 'bvxor': 'bvxor', 'shl': 'shl', 'lshr': 'lshr',
       'ashr': 'ashr', 'udiv': 'udiv', 'urem': 'urem', 'sdiv': 'sdiv', 'srem': 'srem'}
CMP = ('ult', 'ule', 'slt', 'sle', 'eq')


def raw(k):
    n, a = k[0], k[1:]
    if n == 'not_':
        return mk('not', a, 'B')
    if n == 'and_':
        return mk('and', a, 'B') if a else tm.TRUE
    if n == 'ite':
        return mk('ite', a, a[1].sort)
    if n in CMP:
        return mk(n, a, 'B')
    if n in BIN:
        return mk(n, a, a[0].sort)
    if n == 'extract':
        return mk('extract', (a[2],), a[0] - a[1] + 1, (a[0], a[1])) if a[0] - a[1] + 1 != a[2].sort else a[2]
    if n == 'concat':
        return mk('concat', a, a[0].sort + a[1].sort)
    if n in ('zext', 'sext'):
        return mk(n, (a[1],), a[0]) if a[0] != a[1].sort else a[1]
    return None


class Points:
    def __init__(self, rng):
        self.rng, self.v = rng, {}

    def atom(self, f, t):
        k = (f, t)
        if k not in self.v:
            self.v[k] = self.rng.randrange(tm.MODULUS[f])
        return self.v[k]

    def field(self, f, t):
        if not (t.op == 'poly' and t.data[0] == f):
            return self.atom(f, t)
        s = 0
        for c, ix in t.data[1]:
            for i in ix:
                c = c * self.atom(f, t.args[i])
            s += c
        return s % tm.MODULUS[f]

    def group(self, t):
        if t.op != 'lin':
            return self.atom('Fq', mk('point of', (t,)))
        return sum(self.field('Fq', t.args[i]) * self.atom('Fq', mk('point of', (t.args[i + 1],))) for i in range(0, len(t.args), 2)) % tm.Q_SCALAR


def check(trace, z, rng, seconds):
    """dict of counts; 'wrong' lists the steps that do not hold."""
    import time
    import refute as rf
    out = dict(z3=0, evaluated=0, unchanged=0, unknown=0, wrong=[])
    pts = Points(rng)
    end = time.time() + seconds
    items = list(trace.items())
    rng.shuffle(items)
    for k, r in items:
        if time.time() > end:
            out['not_run'] = out.get('not_run', 0) + 1
            continue
        n, a = k[0], k[1:]
        x = raw(k)
        if x is not None:
            if x is r or (r.op == x.op and r.data == x.data and sorted(r.args, key=id) == sorted(x.args, key=id) and n in ('bvadd', 'bvmul', 'bvand', 'bvor', 'bvxor', 'eq', 'and_')):
                out['unchanged'] += 1
                continue
            s = z3.Solver()
            s.set('timeout', 1000)
            s.add(z.tr(x) != z.tr(r))
            q = str(s.check())
            if q == 'unsat':
                out['z3'] += 1
            elif q == 'sat':
                out['wrong'].append('%s: %s -> %s' % (n, tm.show(x)[:300], tm.show(r)[:300]))
            else:
                out['unknown'] += 1
            continue
        if n.startswith(('poly_', 'g_')):
            F = pts.field
            p = tm.Q_SCALAR if n[0] == 'g' else tm.MODULUS[a[0]]
            got = pts.group(r) if n[0] == 'g' else F(a[0], r)
            want = {'poly_add': lambda: F(a[0], a[1]) + F(a[0], a[2]), 'poly_mul': lambda: F(a[0], a[1]) * F(a[0], a[2]), 'poly_scale': lambda: F(a[0], a[1]) * a[2],
                    'g_add': lambda: pts.group(a[0]) + pts.group(a[1]), 'g_mul': lambda: F('Fq', a[0]) * pts.group(a[1])}[n]()
            if (got - want) % p:
                out['wrong'].append('%s %s -> %s' % (n, [str(y)[:200] for y in a], tm.show(r)[:300]))
            else:
                out['evaluated'] += 1
            continue
        v = evaluate(rf, n, a, r, rng)
        if v is None:
            out['unknown'] += 1
        elif v == 'same':
            out['unchanged'] += 1
        elif v is True:
            out['evaluated'] += 1
        else:
            out['wrong'].append('%s %s\n -> %s\n: %s' % (n, [str(y)[:200] for y in a], str(r)[:300], v))
    return out


def evaluate(rf, n, a, r, rng):
    """True when both sides agree at every sampled interpretation (at least one)."""
    if n in ('fld', 'len', 'idx', 'discr'):
        args, s, data = a
        x = mk(n, args, 64 if n == 'len' else s, data if n == 'fld' else None)
        if x is r:
            return 'same'
    try:
        if n in ('seq_len', 'seq_at', 'seq_concat', 'seq_slice'):
            sv = [vals.to_term(y) if isinstance(y, vals.V) else y for y in a]
            rt = vals.to_term(r) if isinstance(r, vals.V) else r
    except Exception:
        return None
    n_ok = 0
    for i in range(4):
        ev = rf.Ev('%d' % rng.getrandbits(40))
        ev.start()
        try:
            if n in ('fld', 'len', 'idx', 'discr'):
                if n == 'idx' and not inside(ev, args[0], args[1]):
                    continue
                if n == 'fld' and variant(ev, args[0]) not in (None, data[1]):
                    continue
                u, w = ev.ev(x), ev.ev(r)
                if n == 'len':
                    u %= 1 << 64
            elif n == 'seq_len':
                u, w = ev.length(ev.ev(sv[0])) % (1 << 64), ev.ev(rt)
            elif n == 'seq_at':
                if not inside(ev, sv[0], sv[1]):
                    continue
                w = ev.ev(rt)
                u = ev.at(ev.ev(sv[0]), ev.ev(sv[1]), rt.sort)
            else:
                srt = esort(a[0]) or esort(r) or 'U'
                w = ev.items(ev.ev(rt), srt)
                u = ev.items(ev.ev(sv[0]), srt)
                if n == 'seq_concat':
                    u = u + ev.items(ev.ev(sv[1]), srt)
                else:
                    lo, hi = ev.ev(sv[1]), ev.ev(sv[2])
                    if not lo <= hi <= len(u):
                        continue
                    u = u[lo:hi]
                u, w = ev.seqv(u, srt), ev.seqv(w, srt)
            if not ev.eqv(u, w):
                return '%s against %s' % (rf.short(ev, u), rf.short(ev, w))
            n_ok += 1
        except (rf.Skip, RecursionError):
            pass
    return True if n_ok else None


def esort(s):
    for g in s.segs:
        if g[0] == 'flat':
            x = esort(g[3])
            if x is not None:
                return x
        else:
            return vals.to_term(g[1][0] if g[0] == 'lit' else g[3]).sort
    return None


def inside(ev, s, i):
    return ev.ev(i) < ev.length(ev.ev(s))


def variant(ev, t):
    v = ev.ev(t)
    return v[2] if isinstance(v, tuple) and v[0] == 'mk' else None
